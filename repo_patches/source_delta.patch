From 8a061a762dd0fdeb1718c0ea61884d4f88388648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 01/40] fix: compare a new point with the previous point of the
 same loop when dropping duplicates

The duplicate check looked at the last stored point, which may belong to the
previous loop (losing the first point of a loop that starts where the previous
one ended) and did not see a repeated closing point (leaving a line segment of
zero length).
---
 include/poly_ops/clip.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 299a75d..01d0774 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2027,8 +2027,6 @@ public:
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::finalize_prev() {
-    if(!n.lpoints.empty() && prev == n.lpoints.back().data) return;
-
     if(pt) {
         switch(n.lpoints.size() - std::size_t(first_i)) {
         case 0:
@@ -2051,10 +2049,14 @@ void clipper<Coord,Index>::point_sink::finalize_prev() {
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index orig_i) {
-    if(started) finalize_prev();
+    n._next_orig_i = orig_i + 1;
+    if(started) {
+        // consecutive duplicate points are ignored
+        if(p == prev) return;
+        finalize_prev();
+    }
     prev = p;
     prev_orig_i = orig_i;
-    n._next_orig_i = orig_i + 1;
     started = true;
 }
 template<coordinate Coord,std::integral Index>
-- 
2.43.0


From 194a0535eaeb271c4898b48f2f3772722b9eb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 02/40] fix: don't read past the stored points when a loop has
 only one point

---
 include/poly_ops/clip.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 01d0774..a70c0c9 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2066,9 +2066,14 @@ clipper<Coord,Index>::point_sink::~point_sink() {
     end-point indices. The sweep sets expect line segments with unique indices.
     */
     if(started) [[likely]] {
-        if(prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
-
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
+
+        // if nothing was stored yet, "prev" is the only point of the loop
+        if(points_added > 0 && prev != n.lpoints[first_i].data) [[likely]] {
+            finalize_prev();
+            ++points_added;
+        }
+
         if(points_added < 3) [[unlikely]] {
             while(points_added-- > 0) n.lpoints.pop_back();
         } else {
-- 
2.43.0


From a672d75143b0f34b20983e63404d8ef0fe0a149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 03/40] fix: keep loops in the hierarchy when coincident edges
 make their depth ambiguous

---
 include/poly_ops/clip.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index a70c0c9..e876c63 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1414,14 +1414,20 @@ std::pmr::vector<temp_polygon<Index>*> arrange_loops(
     for(const auto& item : ordered_loops) {
         if(item.hits.empty()) top.push_back(&loops[item.p]);
         else {
+            /* The immediate parent is normally inside every other outer loop.
+            When edges coincide, the outer loops might not be nested in each
+            other. In that case, the most deeply nested one is used. */
+            temp_polygon<Index> *parent = nullptr;
+            std::size_t parent_depth = 0;
             for(Index outer_i : item.hits) {
-                if(ordered_loops[outer_i].hits.size() == (item.hits.size() - 1)) {
-                    loops[outer_i].children.push_back(&loops[item.p]);
-                    goto next;
+                std::size_t depth = ordered_loops[outer_i].hits.size();
+                if(depth < item.hits.size() && (!parent || depth > parent_depth)) {
+                    parent = &loops[outer_i];
+                    parent_depth = depth;
                 }
             }
-            POLY_OPS_ASSERT(false);
-          next: ;
+            if(parent) parent->children.push_back(&loops[item.p]);
+            else top.push_back(&loops[item.p]);
         }
     }
 
-- 
2.43.0


From ac2e2c129a464d8af8d7a688c3f6504926e99078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 04/40] fix: pass the tracker along when post-incrementing a
 loop iterator

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index e876c63..0dc5ff5 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1617,7 +1617,7 @@ public:
     }
 
     proto_loop_iterator operator++(int) noexcept {
-        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--};
+        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--,tracker};
     }
 
     value_type operator*() const noexcept(std::is_nothrow_copy_constructible_v<Coord>) {
-- 
2.43.0


From b3ef038a9f02f89f59b094223ef925f8a6115a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 05/40] fix: don't pass the tracker twice in
 tclipper::add_loops_subject and add_loops_clip

---
 include/poly_ops/clip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 0dc5ff5..d6b570b 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2537,7 +2537,7 @@ public:
      */
     template<typename R> void add_loops_subject(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::subject,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::subject);
     }
 
     /**
@@ -2545,7 +2545,7 @@ public:
      */
     template<typename R> void add_loops_clip(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::clip,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::clip);
     }
 
     /**
-- 
2.43.0


From 3470bd5d6263ffe435e23530d7f5165317300631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 06/40] fix: allocate the sweep nodes with the memory resource
 given to the clipper

---
 include/poly_ops/clip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index d6b570b..5184350 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1896,6 +1896,7 @@ public:
         lpoints(contig_mem),
         samples(contig_mem),
         events(contig_mem),
+        sweep_nodes(contig_mem),
         breaks(contig_mem,&discrete_mem),
         _next_orig_i(0),
         ran(false),
-- 
2.43.0


From 600d0f1e5f0ed4a176e9f311ada4445c987b38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:21 +0000
Subject: [PATCH 07/40] fix: don't pass anchor points to the point tracker

---
 include/poly_ops/clip.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 5184350..0da81cc 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1207,12 +1207,18 @@ void follow_balance(
     POLY_OPS_ASSERT(!(points[intr].state() & line_state::anchor));
     Index next = points[intr].next;
     Index prev = intr;
+    /* same as "prev", except this is never an anchor point, since the point
+    tracker doesn't know about those */
+    Index tracked_prev = intr;
     while(!points[next].has_line_bal()) {
         Index real_next_next = points[next].next;
 
         points[next].state() = points[intr].state() | (points[next].state() & line_state::anchor);
         if(!(points[intr].state() & line_state::keep)) {
-            if(pt) pt->point_merge(prev,next);
+            if(!(points[next].state() & line_state::anchor)) {
+                if(pt) pt->point_merge(tracked_prev,next);
+                tracked_prev = next;
+            }
         } else if(points[intr].state() & line_state::reverse) {
             /* the actual points should not be moved, to make point-tracking
             simpler, except for the temporary anchor points, which must have the
@@ -1229,7 +1235,7 @@ void follow_balance(
 
     switch(points[intr].state()) {
     case line_state::discard:
-        if(pt) pt->point_merge(prev,next);
+        if(pt) pt->point_merge(tracked_prev,next);
         break;
     case line_state::keep:
         breaks.broken_starts[points[intr].data].push_back(intr);
-- 
2.43.0


From 174eec2ab2adcfaae26a5afa5ee6d213a988774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 08/40] fix: make a complete circle around a lone point

The rotation angle was computed from the unclamped step count (which may be
zero) and one of the points was never emitted, so small offsets of a lone point
produced no polygon at all.
---
 include/poly_ops/offset.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index e62d629..5b8230a 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -153,14 +153,14 @@ Index offset_lone_point(
     // use at least 3 points to make a circle
     long lsteps = std::max(static_cast<long>(steps),3L);
 
-    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(steps));
-    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(steps));
+    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(lsteps));
+    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(lsteps));
 
     point_t<real_t> offset{magnitude,0};
 
-    for(long i=1; i<lsteps; ++i) {
-        offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
+    for(long i=0; i<lsteps; ++i) {
         sink(p + vround<Coord>(offset),next_orig_i);
+        offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
     }
 
     return next_orig_i + 1;
-- 
2.43.0


From d8b5807f7d889e0546d44c112a3afeeccf63a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 09/40] fix: count the points of offset loops correctly when
 tracking origins

Repeated points and lone points shifted the original indices of the points that
follow, and the indices of open lines were off by one for everything after.
---
 include/poly_ops/offset.hpp | 69 ++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 5b8230a..aeb282f 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -134,16 +134,16 @@ void add_offset_point(
 }
 
 template<typename Index,typename Coord>
-Index offset_lone_point(
+void offset_lone_point(
     typename clipper<Coord,Index>::point_sink &sink,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index next_orig_i,
+    Index orig_i,
     point_t<Coord> p)
 {
     using real_t = real_coord_t<Coord>;
 
-    if(magnitude <= 0) return next_orig_i;
+    if(magnitude <= 0) return;
 
     // we need to approximate a circle
 
@@ -159,11 +159,9 @@ Index offset_lone_point(
     point_t<real_t> offset{magnitude,0};
 
     for(long i=0; i<lsteps; ++i) {
-        sink(p + vround<Coord>(offset),next_orig_i);
+        sink(p + vround<Coord>(offset),orig_i);
         offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
     }
-
-    return next_orig_i + 1;
 }
 
 /* add a signed int to a possibly unsigned integer */
@@ -172,36 +170,42 @@ template<typename T> auto signed_add(T a,int b) {
 }
 
 template<typename Coord,typename Index> struct offset_tail_end {
-    Index orig_i;
+    Index next_orig_i;
+    Index prev1_i;
+    Index prev2_i;
     point_t<Coord> prev1;
     point_t<Coord> prev2;
 };
 
+/* "prev2_i" and "prev1_i" are the original indices of "prev2" and "prev1".
+"next_orig_i" is the original index of the first point of "input". */
 template<typename Coord,typename Index,typename Input>
 offset_tail_end<Coord,Index> _add_offset_tail_open(
     typename clipper<Coord,Index>::point_sink &sink,
     Input &&input,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index first_orig_i,
+    Index prev2_i,
+    Index prev1_i,
+    Index next_orig_i,
     int i_step,
     point_t<Coord> prev2,
     point_t<Coord> prev1)
 {
-    Index next_orig_i = first_orig_i;
-
     for(point_t<Coord> p : input) {
         if(p != prev1) {
-            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,p);
+            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_i,prev1_i,prev2,prev1,p);
             prev2 = prev1;
+            prev2_i = prev1_i;
             prev1 = p;
+            prev1_i = next_orig_i;
         }
         next_orig_i = signed_add(next_orig_i,i_step);
     }
 
-    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,prev2);
+    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_i,prev1_i,prev2,prev1,prev2);
 
-    return {signed_add(next_orig_i,i_step),prev1,prev2};
+    return {next_orig_i,prev1_i,prev2_i,prev1,prev2};
 }
 
 template<typename Coord,typename Index,typename Input>
@@ -230,34 +234,42 @@ void _add_offset_open(
         point_t<Coord> prev1;
 
         auto sink = n.add_loop(set,pt);
+
+        Index prev2_i = sink.next_orig_i();
+        end_orig_i = prev2_i + 1;
         
         for(;;) {
             if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
+                offset_lone_point(sink,magnitude,arc_step_size,prev2_i,prev2);
                 break;
             }
 
             prev1 = *itr;
             ++itr;
+            Index prev1_i = end_orig_i++;
 
             if(prev1 != prev2) {
-                auto [orig_i,prev1b,prev2b] = _add_offset_tail_open<Coord,Index>(
+                auto [next_orig_i,prev1b_i,prev2b_i,prev1b,prev2b] = _add_offset_tail_open<Coord,Index>(
                     sink,
                     std::ranges::subrange{itr,std::ranges::end(input)},
                     magnitude,
                     arc_step_size,
-                    sink.next_orig_i(),
+                    prev2_i,
+                    prev1_i,
+                    end_orig_i,
                     1,
                     prev2,
                     prev1);
-                end_orig_i = orig_i;
+                end_orig_i = next_orig_i;
 
                 _add_offset_tail_open<Coord,Index>(
                     sink,
                     std::ranges::subrange{std::next(std::ranges::rbegin(input),2),std::ranges::rend(input)},
                     magnitude,
                     arc_step_size,
-                    end_orig_i,
+                    prev1b_i,
+                    prev2b_i,
+                    signed_add(end_orig_i,-3),
                     -1,
                     prev1b,
                     prev2b);
@@ -299,24 +311,29 @@ void _add_offset_closed(
         point_t<Coord> second;
 
         auto sink = n.add_loop(set,pt);
+
+        const Index first_orig_i = sink.next_orig_i();
+        end_orig_i = first_orig_i + 1;
         
         for(;;) {
             if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
+                offset_lone_point(sink,magnitude,arc_step_size,first_orig_i,prev2);
                 break;
             }
 
             prev1 = second = *itr;
             ++itr;
+            Index prev2_i = first_orig_i;
+            Index prev1_i = end_orig_i++;
 
             if(prev1 != prev2) {
-                Index first_orig_i = sink.next_orig_i();
-                end_orig_i = first_orig_i;
                 for(point_t<Coord> p : std::ranges::subrange{itr,end}) {
                     if(p != prev1) {
-                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,end_orig_i+1,prev2,prev1,p);
+                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_i,prev1_i,prev2,prev1,p);
                         prev2 = prev1;
+                        prev2_i = prev1_i;
                         prev1 = p;
+                        prev1_i = end_orig_i;
                     }
                     ++end_orig_i;
                 }
@@ -326,19 +343,17 @@ void _add_offset_closed(
                         sink,
                         magnitude,
                         arc_step_size,
-                        end_orig_i,
-                        end_orig_i+1,
+                        prev2_i,
+                        prev1_i,
                         prev2,
                         prev1,
                         prev1 == first ? second : first);
                 }
-                ++end_orig_i;
 
                 /* if "prev1" is equal to "first", we are already done */
                 if(prev1 != first) {
-                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,first_orig_i,prev1,first,second);
+                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev1_i,first_orig_i,prev1,first,second);
                 }
-                ++end_orig_i;
                 break;
             }
         }
-- 
2.43.0


From 6ea05a621c94b5caac7b6049a16c90659cb3ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 10/40] fix: measure the distance between strided iterators in
 elements

---
 include/poly_ops/strided_itr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/strided_itr.hpp b/include/poly_ops/strided_itr.hpp
index 950bf17..24059c3 100644
--- a/include/poly_ops/strided_itr.hpp
+++ b/include/poly_ops/strided_itr.hpp
@@ -75,11 +75,11 @@ struct strided_itr {
     }
 
     friend std::ptrdiff_t operator-(const strided_itr &a,const strided_itr &b) {
-        return a.ptr - b.ptr;
+        return a.stride == 0 ? 0 : (a.ptr - b.ptr) / a.stride;
     }
 
     friend auto operator<=>(const strided_itr &a,const strided_itr &b) {
-        return a.ptr <=> b.ptr;
+        return a.stride < 0 ? b.ptr <=> a.ptr : a.ptr <=> b.ptr;
     }
 
     friend auto operator==(const strided_itr &a,const strided_itr &b) {
-- 
2.43.0


From f907098bdd32735b7427d15151435887f4e1b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 11/40] fix: keep the size of mini_flat_set in step when a
 second value is inserted

insert() allocated storage for the second value without updating the size, which
leaked the storage and lost both values, and empty() returned the opposite.
---
 include/poly_ops/mini_flat_set.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 849928c..981194b 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -156,7 +156,7 @@ public:
     }
 
     std::size_t size() const noexcept { return _size; }
-    bool empty() const noexcept { return _size != 0; }
+    bool empty() const noexcept { return _size == 0; }
     T *begin() noexcept { return _size > 1 ? u.data->items : &u.item; }
     const T *begin() const noexcept { return _size > 1 ? u.data->items : &u.item; }
     T *end() noexcept { return begin() + _size; }
@@ -178,6 +178,7 @@ public:
 
             u.data->items[i1] = tmp;
             u.data->items[i2] = value;
+            _size = 2;
             return {u.data->items + i2,true};
         } else {
             T* pos = std::upper_bound(u.data->items,u.data->items+_size,value);
-- 
2.43.0


From 46a11e662cd2c07b6d3a8a6cb536ab482ecbfde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 12/40] fix: align the storage of mini_flat_set for its header

---
 include/poly_ops/mini_flat_set.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 981194b..7ec77f0 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -31,17 +31,24 @@ class mini_flat_set {
         data_t *data;
     } u;
 
+    using data_alloc_t = typename alloc_traits::template rebind_alloc<data_t>;
+    using data_alloc_traits = std::allocator_traits<data_alloc_t>;
+
+    /* the storage is measured in multiples of data_t, so that it is aligned for
+    the capacity field as well as for the items */
     static std::size_t alloc_size(std::size_t n) {
-        return n + (offsetof(data_t,items) + sizeof(T) - 1) / sizeof(T);
+        return (offsetof(data_t,items) + n * sizeof(T) + sizeof(data_t) - 1) / sizeof(data_t);
     }
 
     static data_t *alloc_data(Allocator &alloc,std::size_t n) {
-        data_t *r = reinterpret_cast<data_t*>(alloc_traits::allocate(alloc,alloc_size(n)));
+        data_alloc_t d_alloc(alloc);
+        data_t *r = data_alloc_traits::allocate(d_alloc,alloc_size(n));
         r->capacity = n;
         return r;
     }
     static void dealloc_data(Allocator &alloc,data_t *d) {
-        alloc_traits::deallocate(alloc,reinterpret_cast<T*>(d),alloc_size(d->capacity));
+        data_alloc_t d_alloc(alloc);
+        data_alloc_traits::deallocate(d_alloc,d,alloc_size(d->capacity));
     }
 
     template<std::input_iterator InputIt>
-- 
2.43.0


From 7adfaf02c1fb0619d10e9a7609c917e981fa00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 13/40] fix: copy all words when assigning to a wider
 compound_xint

The assignment to lo() rebound a temporary reference, so only the highest word
was written.
---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index ac8cf60..0104746 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -397,7 +397,7 @@ public:
 
     template<safe_comp_or_single_i<N,Signed> T> compound_xint &operator=(const T &b) noexcept {
         if constexpr(N > 1) {
-            lo() = detail::compi_lo<N>(b);
+            lo().set(detail::compi_lo<N>(b));
         }
         hi() = detail::compi_hi<N>(b);
         return *this;
-- 
2.43.0


From 947349878862214f10d5ccc28a50b6bb2bd4b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 14/40] fix: convert compound_xint to 128-bit integers
 correctly

The high word was shifted by bytes instead of bits and the sign was not extended.
---
 include/poly_ops/large_ints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 0104746..21ff2a3 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -283,9 +283,9 @@ namespace detail {
     template<integral T,typename U> T cast(const U &x) noexcept {
         constexpr unsigned int N = int_count<false,U>;
         if constexpr(N == 1) {
-            return static_cast<T>(compi_hi<1>(x));
+            return static_cast<T>(compi_hi<1,signed_type<U>>(x));
         } else if constexpr(int_count<false,T> >= N) {
-            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int))) | cast<T>(compi_lo<N>(x));
+            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int) * 8)) | cast<T>(compi_lo<N>(x));
         } else {
             return cast<T>(compi_lo<N>(x));
         }
-- 
2.43.0


From 3787a0018c158403ca737000bcfd2cc6a497069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 15/40] fix: scale the words of compound_xint correctly when
 converting to floating point

The scale was only right for two words.
---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 21ff2a3..a643e6a 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -347,7 +347,7 @@ template<unsigned int N> using const_compound_xint_ref = _compound_xint_ref<N,tr
 namespace detail {
     template<std::floating_point T,unsigned int N> T unsigned_to_float(const_compound_xint_ref<N> x) noexcept {
         if constexpr(N > 1) {
-            return std::ldexp(static_cast<T>(x.hi()),32*N) + unsigned_to_float<T,N-1>(x.lo());
+            return std::ldexp(static_cast<T>(x.hi()),static_cast<int>((N-1) * sizeof(full_uint) * 8)) + unsigned_to_float<T,N-1>(x.lo());
         } else {
             return static_cast<T>(x.hi());
         }
-- 
2.43.0


From 62f2e4e1909284927913d701f33aef7fa143854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 16/40] fix: propagate carries without compiler extensions

A carry was lost when it wrapped a word around that the addition or subtraction
itself had left at its limit.
---
 include/poly_ops/large_ints.hpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index a643e6a..5b7744c 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -566,29 +566,28 @@ namespace detail {
 #else
     using carry_t = full_uint;
     _POLY_OPS_FORCE_INLINE carry_t _addcarry(full_uint a,full_uint b,full_uint &out,carry_t carry=0) noexcept {
-        out = a + b;
-        carry_t cr = out < a;
-        out += carry;
-        return (out < a) | cr;
+        full_uint sum = a + b;
+        carry_t cr = sum < a;
+        out = sum + carry;
+        return (out < sum) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _addcarry_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
-        a = a + b;
-        carry_t cr = a < b;
-        a += carry;
-        return (a < b) | cr;
+        full_uint sum = a + b;
+        carry_t cr = sum < b;
+        a = sum + carry;
+        return (a < sum) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow(full_uint a,full_uint b,full_uint &out,carry_t carry=0) noexcept {
-        out = a - b;
-        carry_t cr = out > a;
-        out -= carry;
-        return (out > a) | cr;
+        full_uint diff = a - b;
+        carry_t cr = diff > a;
+        out = diff - carry;
+        return (out > diff) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
-        full_uint prev_a = a;
-        a = a - b;
-        carry_t cr = a > prev_a;
-        a -= carry;
-        return (a > prev_a) | cr;
+        full_uint diff = a - b;
+        carry_t cr = diff > a;
+        a = diff - carry;
+        return (a > diff) | cr;
     }
 #endif
 
-- 
2.43.0


From a9a3de147e5a01196aaac2580f760c8c25466acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 17/40] fix: keep the whole remainder when dividing a signed
 value by an unsigned one

The remainder was cut to the size of the unsigned divisor and its top bit taken
for a sign.
---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 5b7744c..b5cf440 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1334,7 +1334,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             udivmod_shift_sub<N>(a_tmp.data(),b_tmp.data(),r.quot.data());
         }
 
-        r.rem = compound_int<int_count<false,U>>(a_tmp);
+        r.rem = compound_int<int_count<true,U>>(a_tmp);
 
         if constexpr(Mod == modulo_t::truncate_v) {
             if(sa ^ sb) r.quot = -r.quot;
-- 
2.43.0


From 4e5445eea55e905fc438869002253248023c874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 18/40] fix: multiply small unsigned integers without
 overflowing a signed result

---
 include/poly_ops/large_ints.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index b5cf440..85bfbe7 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1078,7 +1078,12 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
     using namespace detail;
 
     if constexpr(small_xints<T> && small_xints<U>) {
-        return static_cast<detail::bltin_sized_int<sizeof(T) + sizeof(U)>>(a) * b;
+        using int_t = detail::bltin_sized_int<sizeof(T) + sizeof(U)>;
+        if constexpr(signed_type<T> || signed_type<U>) {
+            return static_cast<int_t>(a) * b;
+        } else {
+            return static_cast<std::make_unsigned_t<int_t>>(a) * b;
+        }
     } else {
         constexpr bool Signed = signed_type<T> || signed_type<U>;
         constexpr unsigned int Na = int_count<Signed,T>;
-- 
2.43.0


From de1261626f1f0333ddf8e1d0a4ee9a19e2c75dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 19/40] fix: keep euclidean remainders smaller than the divisor

When the division was exact and the operands had different signs, the quotient
was one too small and the remainder as big as the divisor.
---
 include/poly_ops/large_ints.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 85bfbe7..b40a099 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1185,7 +1185,7 @@ auto unmul(const T &a,const U &b,modulo_t::type<Mod> = {}) noexcept {
 #  endif
         if constexpr(Signed && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if(compi_hi<3>(a) ^ compi_hi<2>(b)) {
+            if((compi_hi<3>(a) ^ compi_hi<2>(b)) && r.rem != 0) {
                 r.quot -= 1;
                 r.rem = abs(b) - r.rem;
             }
@@ -1315,7 +1315,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
 
         if constexpr(signed_ && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if((sign(a_tmp) ^ sign(b_tmp))) {
+            if((sign(a_tmp) ^ sign(b_tmp)) && r.rem != 0) {
                 r.rem = abs(b_tmp) - r.rem;
                 r.quot -= 1;
             }
@@ -1346,8 +1346,12 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             if(sa) r.rem = -r.rem;
         } else if constexpr(Mod == modulo_t::euclid_v) {
             if(sa ^ sb) {
-                r.rem = abs(b) - r.rem;
-                r.quot = -1 - r.quot;
+                if(r.rem != 0) {
+                    r.rem = abs(b) - r.rem;
+                    r.quot = -1 - r.quot;
+                } else {
+                    r.quot = -r.quot;
+                }
             }
         }
     } else {
-- 
2.43.0


From 3e82b9a46a23f03435bd7d7dbda236617ff880fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 20/40] fix: compare fractions with whole numbers for equality

---
 include/poly_ops/polydraw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index a1b5409..e1a8e56 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -63,7 +63,7 @@ struct fraction {
     }
     friend auto operator==(const fraction &a,T b) noexcept {
         assert(a.denom > 0);
-        return a.num <=> large_ints::mul(b,a.denom);
+        return a.num == large_ints::mul(b,a.denom);
     }
 };
 
-- 
2.43.0


From 43aa40932db0365f1fd38548f4ae6825160efbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 21/40] fix: let the rasterizer handle intersecting lines

Lines meeting in one point were swapped back and forth without end, and
intersections at whole y coordinates were left for the next scan line.
---
 include/poly_ops/polydraw.hpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index e1a8e56..070bbbb 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -122,6 +122,9 @@ template<typename Coord> using cached_segment = poly_ops::detail::cached_segment
 template<typename T> constexpr size_t compound_int_size
     = (sizeof(T) + sizeof(large_ints::full_uint) - 1) / sizeof(large_ints::full_uint);
 
+/* "s1" must come directly before "s2" in the sweep. The lines only need to swap
+if they intersect and "s1" isn't already the line that comes first after the
+intersection. */
 template<typename Coord>
 bool intersects(
     const cached_segment<Coord> &s1,
@@ -142,14 +145,12 @@ bool intersects(
     if(s1.a == s2.a || s1.a == s2.b || s1.b == s2.a || s1.b == s2.b) return false;
 
     auto d = mul<Coord,Coord>(x1-x2,y3-y4) - mul<Coord,Coord>(y1-y2,x3-x4);
-    if(d == 0) return false;
+    if(d >= 0) return false;
 
     auto t_i = mul<Coord,Coord>(x1-x3,y3-y4) - mul<Coord,Coord>(y1-y3,x3-x4);
     auto u_i = mul<Coord,Coord>(x1-x3,y1-y2) - mul<Coord,Coord>(y1-y3,x1-x2);
 
-    if(d > 0) {
-        if(t_i <= 0 || t_i >= d || u_i <= 0 || u_i >= d) return false;
-    } else if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
+    if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
 
     auto qr = unmul<compound_int_size<Coord>>(mul(t_i,y2-y1) + mul(d,y1),d,modulo_t::euclid);
     intr_y.whole = static_cast<Coord>(qr.quot);
@@ -218,7 +219,9 @@ bool consistent_order(const sweep_t<Coord> &sweep) {
     return true;
 }
 
-enum class event_type_t {backward,forward,swap};
+/* Lines that end are removed before the remaining lines are swapped and lines
+are swapped before new lines are inserted */
+enum class event_type_t {backward,swap,forward};
 struct swap_type {};
 template<typename Coord> struct event {
     event_type_t type;
@@ -635,6 +638,7 @@ public:
 
         for(; !rast.events.at_end() && std::cmp_less(y,height); ++y) {
             sweep.key_comp().current_y = y;
+            /* intersections before "y" */
             for(; !rast.events.at_end()
                     && less_than_or_equal(rast.lpoints,rast.events.current(),y)
                     && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
@@ -667,6 +671,23 @@ public:
 
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
+            /* intersections at "y" */
+            for(; !rast.events.at_end()
+                    && less_than_or_equal(rast.lpoints,rast.events.current(),y)
+                    && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
+            {
+                auto &e = rast.events.current();
+
+                POLY_OPS_DRAW_DEBUG_LOG(
+                    "SWAP {} and {} at {}",
+                    rast.sweep_nodes[e.ab.a].value,
+                    rast.sweep_nodes[e.ab.b].value,
+                    e.intr_y);
+
+                rast.swap_and_check(sweep,e.ab.a,e.ab.b,e.intr_y);
+
+                POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
+            }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::forward; rast.events.next(rast.lpoints)) {
                 auto &e = rast.events.current();
 
-- 
2.43.0


From eeb49ec6fd00d894d5461ceefd726a9e25287df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 22/40] fix: don't refer to rasterizer events while adding more
 of them

---
 include/poly_ops/polydraw.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index 070bbbb..07cba3f 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -643,7 +643,7 @@ public:
                     && less_than_or_equal(rast.lpoints,rast.events.current(),y)
                     && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
             {
-                auto &e = rast.events.current();
+                auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "SWAP {} and {} at {}",
@@ -656,7 +656,7 @@ public:
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::backward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "BACKWARD {} at {}",
@@ -676,7 +676,7 @@ public:
                     && less_than_or_equal(rast.lpoints,rast.events.current(),y)
                     && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
             {
-                auto &e = rast.events.current();
+                auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "SWAP {} and {} at {}",
@@ -689,7 +689,7 @@ public:
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::forward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "FORWARD {} at {}",
-- 
2.43.0


From f5e94cc4b9a0b645e401c9f112b7d99508b1a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 23/40] fix: return TrackedRecursiveLoop instances from tracked
 tree operations

---
 py/_polyops.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 6f2f13a..01680f9 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -440,7 +440,7 @@ cdef class PointMap:
 
 TrackedLoop = collections.namedtuple('TrackedLoop','loop originals')
 RecursiveLoop = collections.namedtuple('RecursiveLoop','loop children')
-TrackedRecursiveLoop = collections.namedtuple('RecursiveLoop','loop children originals')
+TrackedRecursiveLoop = collections.namedtuple('TrackedRecursiveLoop','loop children originals')
 
 cdef public object make_tracked_loop(loop,offsets,indices):
     return TrackedLoop(loop,PointMap.__new__(PointMap,offsets,indices))
@@ -449,7 +449,7 @@ cdef public object make_recur_loop(loop,children):
     return RecursiveLoop(loop,children)
 
 cdef public object make_tracked_recur_loop(loop,children,offsets,indices):
-    return RecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
+    return TrackedRecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
 
 cdef load_loop(clipper &c,loop,_bool_set bset,common_dtype,np.NPY_CASTING casting,i_point_tracker *pt):
     cdef np.ndarray ar
-- 
2.43.0


From 5d9ff5a3cc5481628dc618670868bb65f6da11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 24/40] fix: validate the set type given to add_offsets

---
 py/_polyops.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 01680f9..23933eb 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -643,7 +643,7 @@ cdef class Clipper:
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip[0],loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        self.calc_dtype = load_offsets(self._clip[0],loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,NULL)
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
@@ -734,7 +734,7 @@ cdef class TrackedClipper:
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip.base,loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        self.calc_dtype = load_offsets(self._clip.base,loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
-- 
2.43.0


From 0805024f3c9e37451fc67c650081cde18d47eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 25/40] fix: merge discarded points in order so that no origins
 are lost

---
 include/poly_ops/clip.hpp | 77 ++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 17 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 0da81cc..d4c3332 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1189,9 +1189,7 @@ template<typename Index,typename Coord> struct breaks_t {
 
 /* Follow the points connected to the point at "intr" until another intersection
 is reached or we wrapped around. Along the way, update the "state()" value to
-the value at "intr", and if "state()" at "intr" is not "line_state::keep" or
-"line_state::keep_rev", merge all the point values into "intr" via the point
-tracker.
+the value at "intr".
 
 If "state()" at "intr" is one of the "keep" values and the "state" of the next
 intersection is not, add the point before the intersection to "broken_ends. If
@@ -1200,26 +1198,17 @@ template<typename Index,typename Coord>
 void follow_balance(
     std::pmr::vector<loop_point<Index,Coord>> &points,
     Index intr,
-    breaks_t<Index,Coord> &breaks,
-    i_point_tracker<Index> *pt)
+    breaks_t<Index,Coord> &breaks)
 {
     POLY_OPS_ASSERT(points[intr].has_line_bal());
     POLY_OPS_ASSERT(!(points[intr].state() & line_state::anchor));
     Index next = points[intr].next;
     Index prev = intr;
-    /* same as "prev", except this is never an anchor point, since the point
-    tracker doesn't know about those */
-    Index tracked_prev = intr;
     while(!points[next].has_line_bal()) {
         Index real_next_next = points[next].next;
 
         points[next].state() = points[intr].state() | (points[next].state() & line_state::anchor);
-        if(!(points[intr].state() & line_state::keep)) {
-            if(!(points[next].state() & line_state::anchor)) {
-                if(pt) pt->point_merge(tracked_prev,next);
-                tracked_prev = next;
-            }
-        } else if(points[intr].state() & line_state::reverse) {
+        if(points[intr].state() & line_state::reverse) {
             /* the actual points should not be moved, to make point-tracking
             simpler, except for the temporary anchor points, which must have the
             same coordinates as the (new) previous point */
@@ -1235,7 +1224,6 @@ void follow_balance(
 
     switch(points[intr].state()) {
     case line_state::discard:
-        if(pt) pt->point_merge(tracked_prev,next);
         break;
     case line_state::keep:
         breaks.broken_starts[points[intr].data].push_back(intr);
@@ -1268,6 +1256,59 @@ void follow_balance(
     }
 }
 
+/* Merge every point that is going to be discarded into the point that follows
+it, via the point tracker. This must be called after all orphan points have been
+matched and before the starts and ends of the remaining lines are matched.
+
+A point is only merged after every point that merges into it, so that nothing is
+merged into an already discarded point. Anchor points are skipped because the
+point tracker doesn't know about those. */
+template<typename Index,typename Coord>
+void merge_discarded(
+    const std::pmr::vector<loop_point<Index,Coord>> &points,
+    std::pmr::memory_resource *contig_mem,
+    i_point_tracker<Index> &pt)
+{
+    auto is_discarded = [&](Index i) {
+        return !(points[i].state() & (line_state::keep | line_state::anchor));
+    };
+    auto next_of = [&](Index i) {
+        do i = points[i].next;
+        while(points[i].state() & line_state::anchor);
+        return i;
+    };
+
+    Index size = static_cast<Index>(points.size());
+
+    // the number of discarded points not merged into a given point yet
+    std::pmr::vector<Index> pending(points.size(),0,contig_mem);
+    for(Index i=0; i<size; ++i) {
+        if(is_discarded(i)) ++pending[next_of(i)];
+    }
+
+    std::pmr::vector<bool> merged(points.size(),false,contig_mem);
+    for(Index start=0; start<size; ++start) {
+        Index i = start;
+        while(is_discarded(i) && !merged[i] && pending[i] == 0) {
+            Index next = next_of(i);
+            pt.point_merge(i,next);
+            merged[i] = true;
+            --pending[next];
+            i = next;
+        }
+    }
+
+    // the remaining points belong to loops that are entirely discarded
+    for(Index i=0; i<size; ++i) {
+        while(is_discarded(i) && !merged[i]) {
+            merged[i] = true;
+            Index next = next_of(i);
+            if(!merged[next]) pt.point_merge(i,next);
+            i = next;
+        }
+    }
+}
+
 template<typename Index> struct loop_location {
     Index start;
     Index size;
@@ -2370,11 +2411,11 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
             follow_balance<Index,Coord>(
                 lpoints,
                 std::exchange(intr.p,insert_anchor_point(intr.p)),
-                breaks,pt);
+                breaks);
         }
     } else {
         for(auto &intr : samples) {
-            follow_balance<Index,Coord>(lpoints,intr.p,breaks,pt);
+            follow_balance<Index,Coord>(lpoints,intr.p,breaks);
         }
     }
 
@@ -2404,6 +2445,8 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
         lpoints[intr].next = vp.next;
     }
 
+    if(pt) merge_discarded<Index,Coord>(lpoints,contig_mem,*pt);
+
     /* match all the points in broken_starts and broken_ends to make new loops
     with the remaining lines */
     for(Index intr : breaks.broken_ends) {
-- 
2.43.0


From c0c6e7c989c198667d0f2e7667c54ad3fd64f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 26/40] fix: don't let collapsed parts of an inset shape
 reappear inside out

---
 include/poly_ops/offset.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index aeb282f..76482ff 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -25,8 +25,8 @@ ___\__________/___
        /  \
 
 The ends of the lines are reconnected. For outer angles in the original polygon,
-greater than 180 degrees, the ends are joined with a single line. For outer
-angles less than 180 degrees, an arc, whose center is the original point, is
+greater than 180 degrees, the ends are joined via the original point (not shown
+below). For outer angles less than 180 degrees, an arc, whose center is the original point, is
 approximated with multiple lines.
 
 Intersecting lines are then broken so that only end-points touch.
@@ -113,9 +113,16 @@ void add_offset_point(
 
     sink(p2 + vround<Coord>(offset),orig_i2);
 
-    bool concave = p1 == p3 || triangle_winding(p1,p2,p3) > 0;
+    long_coord_t<Coord> turn = triangle_winding(p1,p2,p3);
+    bool concave = p1 == p3 || turn > 0;
     if(magnitude < real_t(0)) concave = !concave;
-    if(concave) {
+    if(!concave) {
+        /* The ends cannot be joined directly. The triangle between the ends and
+        the original point would cancel out parts of the area swept by the lines
+        and if the lines are shorter than the magnitude, parts of the shape that
+        should disappear would become visible. */
+        if(turn != 0) sink(p2,orig_i2);
+    } else {
         // we need to approximate an arc
 
         real_t angle = coord_ops<Coord>::pi() - vangle<Coord>(p1-p2,p3-p2);
-- 
2.43.0


From 37853223c6eb082df8b0ceaceebc70a82ac7e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:00 +0000
Subject: [PATCH 27/40] fix: accept bidirectional ranges without a common end
 when offsetting open lines

---
 include/poly_ops/offset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 76482ff..131aac2 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -431,7 +431,7 @@ void add_offset(
         if(closed) {
             detail::_add_offset_closed(n,input,set,magnitude,arc_step_size,pt);
         } else {
-            if constexpr(std::ranges::bidirectional_range<Input>) {
+            if constexpr(std::ranges::bidirectional_range<Input> && std::ranges::common_range<Input>) {
                 detail::_add_offset_open(n,input,set,magnitude,arc_step_size,pt);
             } else if constexpr(std::ranges::common_range<Input>) {
                 std::pmr::vector<point_t<Coord>> buffer(std::ranges::begin(input),std::ranges::end(input),n.memory());
-- 
2.43.0


From 2281ed07c4bb2e9f3e3be052ddbb1052158b2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:00 +0000
Subject: [PATCH 28/40] fix: go around points where an open line turns straight
 back

---
 include/poly_ops/offset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 131aac2..20ebe7f 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -89,8 +89,8 @@ template<typename Index> using original_sets_t = mini_set_proxy_vector<Index,std
 template<typename Index> using original_set_replacements_t = indexed_mini_set_proxy_vector<Index,std::pmr::polymorphic_allocator<Index>>;
 template<typename Index> using original_set_t = mini_flat_set<Index,std::pmr::polymorphic_allocator<Index>>;
 
-/* When p1 == p3, the angle p1-p2-p3 is assumed to be concave, so that the
-offset goes around the end-points of an open line */
+/* When the line turns straight back at p2, the angle p1-p2-p3 is assumed to be
+concave, so that the offset goes around the end-points of an open line */
 template<typename Index,typename Coord>
 void add_offset_point(
     typename clipper<Coord,Index>::point_sink &sink,
@@ -114,7 +114,7 @@ void add_offset_point(
     sink(p2 + vround<Coord>(offset),orig_i2);
 
     long_coord_t<Coord> turn = triangle_winding(p1,p2,p3);
-    bool concave = p1 == p3 || turn > 0;
+    bool concave = turn > 0 || (turn == 0 && int_dot<Coord>(p1-p2,p3-p2) > 0);
     if(magnitude < real_t(0)) concave = !concave;
     if(!concave) {
         /* The ends cannot be joined directly. The triangle between the ends and
-- 
2.43.0


From 1cc88f7b6281dabf6cd56f00d3ea288703f369fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:00 +0000
Subject: [PATCH 29/40] fix: don't leave spikes where the offset lines already
 meet

---
 include/poly_ops/offset.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 20ebe7f..585399f 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -120,8 +120,11 @@ void add_offset_point(
         /* The ends cannot be joined directly. The triangle between the ends and
         the original point would cancel out parts of the area swept by the lines
         and if the lines are shorter than the magnitude, parts of the shape that
-        should disappear would become visible. */
-        if(turn != 0) sink(p2,orig_i2);
+        should disappear would become visible. If the ends are the same, there
+        is nothing to join. */
+        if(turn != 0 && vround<Coord>(offset) != vround<Coord>(perp_vector<Coord>(p2,p3,magnitude))) {
+            sink(p2,orig_i2);
+        }
     } else {
         // we need to approximate an arc
 
-- 
2.43.0


From b23a01698abba6109a6815222c5135bd73bbee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 30/40] fix: don't overflow when negating the lowest value of a
 single word

---
 include/poly_ops/large_ints.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index b40a099..7a834de 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -407,7 +407,7 @@ public:
         if constexpr(N > 1) {
             return full_uint(0) - *this;
         } else {
-            return -static_cast<full_xint<Signed>>(hi());
+            return static_cast<full_int>(-static_cast<full_uint>(hi()));
         }
     }
 
@@ -859,8 +859,6 @@ template<typename T> auto abs(const T &x) noexcept {
         return x;
     } else if constexpr(builtin_number<T>) {
         return std::abs(x);
-    } else if constexpr(N == 1) {
-        return compound_xint<N,true>(std::abs(compi_hi<1,true>(x)));
     } else {
         return compi_hi<N,true>(x) < 0 ? -x : x;
     }
@@ -1187,7 +1185,7 @@ auto unmul(const T &a,const U &b,modulo_t::type<Mod> = {}) noexcept {
             r.rem = abs(r.rem);
             if((compi_hi<3>(a) ^ compi_hi<2>(b)) && r.rem != 0) {
                 r.quot -= 1;
-                r.rem = abs(b) - r.rem;
+                r.rem = abs(compound_int<1>(b)) - r.rem;
             }
         }
     } else
@@ -1316,7 +1314,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
         if constexpr(signed_ && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
             if((sign(a_tmp) ^ sign(b_tmp)) && r.rem != 0) {
-                r.rem = abs(b_tmp) - r.rem;
+                r.rem = abs(compound_int<1>(b_tmp)) - r.rem;
                 r.quot -= 1;
             }
         }
@@ -1347,7 +1345,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
         } else if constexpr(Mod == modulo_t::euclid_v) {
             if(sa ^ sb) {
                 if(r.rem != 0) {
-                    r.rem = abs(b) - r.rem;
+                    r.rem = abs(compound_int<int_count<true,U>>(b)) - r.rem;
                     r.quot = -1 - r.quot;
                 } else {
                     r.quot = -r.quot;
-- 
2.43.0


From 69f7e50576741062f08cfee35d466125050e3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 31/40] fix: hand over the data when an rvalue clipper is
 executed without a tracker

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index d4c3332..f9471b9 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2070,7 +2070,7 @@ public:
      * Perform a boolean operation and return the result.
      */
     template<bool TreeOut=false> auto execute(bool_op op) && {
-        return execute<TreeOut,null_tracker<Coord,Index>>(op,{});
+        return std::move(*this).template execute<TreeOut,null_tracker<Coord,Index>>(op,{});
     }
 
     Index &next_orig_i() noexcept { return _next_orig_i; }
-- 
2.43.0


From 172fdc5d022500b961401d0cf8d4890b86041ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:10 +0000
Subject: [PATCH 32/40] fix: find intersections at integer coordinates exactly

---
 include/poly_ops/clip.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index f9471b9..a9a23e8 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -500,9 +500,12 @@ bool intersects(
         p[0] = x4;
         p[1] = y4;
     } else {
-        auto t = static_cast<real_coord_t<Coord>>(t_i)/static_cast<real_coord_t<Coord>>(d);
-        real_coord_t<Coord> rx = t * static_cast<real_coord_t<Coord>>(x2-x1);
-        real_coord_t<Coord> ry = t * static_cast<real_coord_t<Coord>>(y2-y1);
+        /* the division is done last, so that the result isn't off when the point
+        of intersection has integer coordinates */
+        auto t_r = static_cast<real_coord_t<Coord>>(t_i);
+        auto d_r = static_cast<real_coord_t<Coord>>(d);
+        real_coord_t<Coord> rx = t_r * static_cast<real_coord_t<Coord>>(x2-x1) / d_r;
+        real_coord_t<Coord> ry = t_r * static_cast<real_coord_t<Coord>>(y2-y1) / d_r;
 
         /* Simple rounding is not sufficient because there is a tiny chance that
         lines are arranged such that rounding one intersection reorders the
-- 
2.43.0


From ad5b8c7a5076b578c3ea64912b1968664215b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 33/40] fix: report failures while a loop is completed as
 exceptions

---
 include/poly_ops/clip.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index a9a23e8..4c552b9 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -19,6 +19,7 @@
 
 /* POLY_OPS_ASSERT can be defined to use an exception, so it can't be used
 inside functions marked as "noexcept". In such cases, "assert" is used. */
+#include <exception>
 #include <cassert>
 
 #include "base.hpp"
@@ -1937,7 +1938,9 @@ public:
         void operator()(const point_t<Coord> &p) { (*this)(p,n._next_orig_i); }
         Index next_orig_i() const { return n._next_orig_i; }
         Index &next_orig_i() { return n._next_orig_i; }
-        ~point_sink();
+
+        /* The last point is stored here, which may require more memory */
+        ~point_sink() noexcept(false);
     };
 
     explicit clipper(std::pmr::memory_resource *_contig_mem=nullptr) :
@@ -2117,7 +2120,7 @@ void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index
     started = true;
 }
 template<coordinate Coord,std::integral Index>
-clipper<Coord,Index>::point_sink::~point_sink() {
+clipper<Coord,Index>::point_sink::~point_sink() noexcept(false) {
     /* This code doesn't work with polygons with fewer than three points. A
     polygon with two points almost works, except the two lines have the same
     end-point indices. The sweep sets expect line segments with unique indices.
@@ -2127,7 +2130,15 @@ clipper<Coord,Index>::point_sink::~point_sink() {
 
         // if nothing was stored yet, "prev" is the only point of the loop
         if(points_added > 0 && prev != n.lpoints[first_i].data) [[likely]] {
-            finalize_prev();
+            try {
+                finalize_prev();
+            } catch(...) {
+                // the loop cannot be completed
+                while(points_added-- > 0) n.lpoints.pop_back();
+
+                if(std::uncaught_exceptions() == 0) throw;
+                return;
+            }
             ++points_added;
         }
 
-- 
2.43.0


From f7e612683fde151e9d2bed2e2f2af19c1240195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 34/40] fix: don't copy the top-level loops into the default
 memory resource

---
 include/poly_ops/clip.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 4c552b9..77b5f8d 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1453,7 +1453,7 @@ void replace_line_indices_with_loop_indices(
 }
 
 template<typename Index>
-std::pmr::vector<temp_polygon<Index>*> arrange_loops(
+void arrange_loops(
     const intr_array_t<Index> &ordered_loops,
     std::pmr::vector<temp_polygon<Index>> &loops,
     std::pmr::vector<temp_polygon<Index>*> &top)
@@ -1481,8 +1481,6 @@ std::pmr::vector<temp_polygon<Index>*> arrange_loops(
             else top.push_back(&loops[item.p]);
         }
     }
-
-    return top;
 }
 
 /* after calling this function, the items of "samples" are left in an
-- 
2.43.0


From 4e2ffd758b1e183d138439ae49b3c9148a4b30f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 35/40] fix: make output loops views so that std::ranges
 functions accept them

---
 include/poly_ops/clip.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 77b5f8d..db3652e 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1706,31 +1706,31 @@ public:
 
 private:
     const detail::loop_point<Index,Coord> *lpoints;
-    const detail::temp_polygon<Index> &data;
+    const detail::temp_polygon<Index> *data;
     [[no_unique_address]] tracker_ptr tracker;
 public:
     temp_polygon_proxy(
         const detail::loop_point<Index,Coord> *lpoints,
         const detail::temp_polygon<Index> &data,
         tracker_ptr tracker)
-        : lpoints{lpoints}, data{data}, tracker{tracker} {}
+        : lpoints{lpoints}, data{&data}, tracker{tracker} {}
 
     /** Get the iterator to the first element. */
     proto_loop_iterator<Coord,Index,Tracker> begin() const noexcept {
-        return {lpoints,data.loop_loc.start,data.loop_loc.size,tracker};
+        return {lpoints,data->loop_loc.start,data->loop_loc.size,tracker};
     }
 
     /** Get the end iterator */
     proto_loop_iterator<Coord,Index,Tracker> end() const noexcept {
-        return {lpoints,data.loop_loc.start,0,tracker};
+        return {lpoints,data->loop_loc.start,0,tracker};
     }
 
     /** Return the number of elements in this range. */
-    Index size() const noexcept { return data.loop_loc.size; }
+    Index size() const noexcept { return data->loop_loc.size; }
 
     /** Return a range representing the children of this polygon. */
     auto inner_loops() const noexcept {
-        return detail::make_temp_polygon_tree_range<Index,Coord>(lpoints,data.children,*tracker);
+        return detail::make_temp_polygon_tree_range<Index,Coord>(lpoints,data->children,*tracker);
     }
 };
 
-- 
2.43.0


From ebd9bcb3f7c6a9b8011aecf2ebbdddd1790c5671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:37 +0000
Subject: [PATCH 36/40] fix: ask numpy for aligned data when reading arrays

Without NPY_ITER_ALIGNED, the iterator hands out pointers to the original
data of unaligned arrays of the coordinate type (for example views of
fields of packed structured arrays), which are then accessed as coord_t.
---
 py/common.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/common.pxd b/py/common.pxd
index 7ab98f7..8d7b89f 100644
--- a/py/common.pxd
+++ b/py/common.pxd
@@ -31,7 +31,7 @@ cdef extern from *:
             if(NPY_UNLIKELY(!dtype)) return;
             itr = NpyIter_New(
                 ar,
-                flag | NPY_ITER_REFS_OK | NPY_ITER_COPY | NPY_ITER_EXTERNAL_LOOP,
+                flag | NPY_ITER_REFS_OK | NPY_ITER_COPY | NPY_ITER_ALIGNED | NPY_ITER_EXTERNAL_LOOP,
                 NPY_CORDER,
                 casting,
                 dtype);
-- 
2.43.0


From 4106d2ab343e9763197c1cc184f3ed45950a9f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:36 +0000
Subject: [PATCH 37/40] fix: keep the old data until new data is allocated in
 mini_flat_set::assign

If the allocation failed, the set was left with a dangling pointer.
---
 include/poly_ops/mini_flat_set.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 7ec77f0..c0e3435 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -141,8 +141,9 @@ public:
             if(_size <= 1) {
                 u.data = alloc_data(alloc,b._size);
             } else if(u.data->capacity < b._size) {
+                data_t *tmp = alloc_data(alloc,b._size);
                 dealloc_data(alloc,u.data);
-                u.data = alloc_data(alloc,b._size);
+                u.data = tmp;
             }
             std::copy(b.u.data->items,b.u.data->items+b._size,u.data->items);
         }
-- 
2.43.0


From 7bbd4ba58888bc0fdb96ff76296060cb1fbd2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:36 +0000
Subject: [PATCH 38/40] fix: keep mini_flat_set sorted if inserting from an
 input iterator fails

---
 include/poly_ops/mini_flat_set.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index c0e3435..fad5ed9 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -55,11 +55,15 @@ class mini_flat_set {
     T *create_items(Allocator &alloc,InputIt first,InputIt last) {
         assert(_size == 1);
 
-        T tmp = u.item;
+        /* the set must be valid if append_items fails, thus the first two items
+        are put in order */
+        T lesser = u.item;
+        T greater = *first;
+        if(greater < lesser) std::swap(lesser,greater);
         u.data = alloc_data(alloc,2);
         _size = 2;
-        u.data->items[0] = tmp;
-        u.data->items[1] = *first;
+        u.data->items[0] = lesser;
+        u.data->items[1] = greater;
         ++first;
         return append_items(alloc,first,last);
     }
-- 
2.43.0


From af3de1b6db324a20207aa800fdb6b346e0483779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 39/40] fix: make the negation of points with 16-bit
 coordinates compile

The negated value is an int and was narrowed in a braced initializer.
---
 include/poly_ops/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/base.hpp b/include/poly_ops/base.hpp
index a4590c9..b965bd9 100644
--- a/include/poly_ops/base.hpp
+++ b/include/poly_ops/base.hpp
@@ -351,7 +351,7 @@ template<typename T> struct point_t {
     }
 
     constexpr point_t operator-() const {
-        return {-_data[0],-_data[1]};
+        return {static_cast<T>(-_data[0]),static_cast<T>(-_data[1])};
     }
 
     friend constexpr void swap(point_t &a,point_t &b) noexcept(std::is_nothrow_swappable_v<T>) {
-- 
2.43.0


From 8ac93584065e0f3d3e9c0dae81f96bfad161d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:14 +0000
Subject: [PATCH 40/40] fix: don't require more of coordinate types than the
 concept does

---
 include/poly_ops/clip.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index db3652e..fc56688 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -614,7 +614,7 @@ template<typename Coord> std::tuple<bool,bool> dual_line_segment_up_ray_intersec
 }
 
 template<typename Coord> Coord hsign_of(const point_t<Coord> &delta) {
-    auto r = delta.x() ? delta.x() : delta.y();
+    auto r = delta.x() != 0 ? delta.x() : delta.y();
     POLY_OPS_ASSERT(r != 0);
     return r;
 }
@@ -1035,26 +1035,26 @@ template<typename Index,typename Coord> struct sweep_cmp {
     bool operator()(const cached_segment<Index,Coord> &s1,const cached_segment<Index,Coord> &s2) const {
         if(s1.pa.x() == s2.pa.x()) {
             Coord r = s1.pa.y() - s2.pa.y();
-            if(r) return r > 0;
+            if(r != 0) return r > 0;
             long_coord_t<Coord> r2 = triangle_winding(s1.pb,s1.pa,s2.pb);
-            if(r2) return r2 > 0;
+            if(r2 != 0) return r2 > 0;
             /* the lines are coincident and have the same start point but they
             might be pointing away from each other */
             r = s1.pb.y() - s2.pb.y();
-            if(r) return r > 0;
+            if(r != 0) return r > 0;
         } else if(s1.pa.x() < s2.pa.x()) {
             if(s1.pa.x() != s1.pb.x()) {
                 long_coord_t<Coord> r = triangle_winding(s1.pb,s1.pa,s2.pa);
-                if(r) return r > 0;
+                if(r != 0) return r > 0;
                 r = triangle_winding(s1.pb,s1.pa,s2.pb);
-                if(r) return r > 0;
+                if(r != 0) return r > 0;
             }
         } else {
             if(s2.pa.x() != s2.pb.x()) {
                 long_coord_t<Coord> r = triangle_winding(s2.pa,s2.pb,s1.pa);
-                if(r) return r > 0;
+                if(r != 0) return r > 0;
                 r = triangle_winding(s2.pa,s2.pb,s1.pb);
-                if(r) return r > 0;
+                if(r != 0) return r > 0;
             }
         }
 
@@ -1434,7 +1434,7 @@ void replace_line_indices_with_loop_indices(
             point_t<Coord> d = lpoints[i].data - end_point(lpoints,i);
             POLY_OPS_ASSERT(d.x() != Coord(0) || d.y() != Coord(0));
             inside[static_cast<std::size_t>(lpoints[i].aux.loop_index)]
-                += ((d.x() ? d.x() : d.y()) > 0) ? 1 : -1;
+                += ((d.x() != 0 ? d.x() : d.y()) > 0) ? 1 : -1;
         }
 
         POLY_OPS_DEBUG_LOG("{}: {}",
@@ -2474,11 +2474,11 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
         loops, always connect to the line that results in the greatest
         clock-wise turn */
         if(os->second.size() > 1) {
-            bool left = large_ints::negative(triangle_winding(lpoints[intr].data,p,non_anchor_end_point(lpoints,os->second[b_start])));
+            bool left = triangle_winding(lpoints[intr].data,p,non_anchor_end_point(lpoints,os->second[b_start])) < 0;
             for(Index i=1; i<static_cast<Index>(os->second.size()); ++i) {
                 auto p3 = non_anchor_end_point(lpoints,os->second[i]);
-                bool i_left = large_ints::negative(triangle_winding(lpoints[intr].data,p,p3));
-                bool left_of_bs = large_ints::negative(triangle_winding(p,non_anchor_end_point(lpoints,os->second[b_start]),p3));
+                bool i_left = triangle_winding(lpoints[intr].data,p,p3) < 0;
+                bool left_of_bs = triangle_winding(p,non_anchor_end_point(lpoints,os->second[b_start]),p3) < 0;
                 if(!(left ? (i_left && left_of_bs) : (i_left || left_of_bs))) {
                     b_start = i;
                     left = i_left;
-- 
2.43.0

