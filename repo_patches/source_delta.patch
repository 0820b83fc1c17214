From 38f2372dcde43bb71a388dfc5ee5265aba0a3986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 01/24] fix: orient a new output bound by its side of the
 filled area, not by its edge

---
 src/src/vatti.cpp | 16 +++++++++-------
 src/src/vatti.h   |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 79188aa..9fb7259 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -895,7 +895,7 @@ namespace vatti
         bound_edge[i - 1].is_done = true;
         bound_edge[i - 0].is_done = true;
 
-        new_output(bound_edge[i - 1].edge, bound_edge[i].edge);
+        new_output(bound_edge[i - 1].edge, bound_edge[i].edge, true);
       }
     }
 
@@ -904,14 +904,16 @@ namespace vatti
       out_bound* bound;
       num curr_x;
       size_t obl_index;
+      bool is_left = false;
     };
 
     // bound_edge 和 obl 剩下的依次按 curr_x, is_up, obl_index, ael, obl原来的顺序排序
 
     std::list<bound_data> sbl;
-    for (auto& new_b : bound_edge) {
+    for (size_t i = 0; i < bound_edge.size(); ++i) {
+      auto& new_b = bound_edge[i];
       if (new_b.is_done == false) sbl.push_back({
-          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size() });
+          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size(), i % 2 == 0 });
     }
     auto curr_b = obl_first;
     while (curr_b) {
@@ -949,7 +951,7 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
-        if (it->edge && next->edge) new_output(it->edge, next->edge);
+        if (it->edge && next->edge) new_output(it->edge, next->edge, it->is_left);
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
         else if (it->edge) update_bound(next->bound, it->edge);
         else update_bound(it->bound, next->edge);
@@ -1355,7 +1357,7 @@ namespace vatti
   }
 
   // a、b 的wind_dx必定相反
-  void clipper::new_output(edge* a, edge* b)
+  void clipper::new_output(edge* a, edge* b, bool a_is_left)
   {
     auto output = new_out_polygon();
     output->idx = output_list.size();
@@ -1366,14 +1368,14 @@ namespace vatti
     up->owner = output;
     up->curr_edge = a;
     a->bound = up;
-    up->wind_dx = a->wind_dx;
+    up->wind_dx = a_is_left ? 1 : -1;
     up->stop_x = a->curr_x;
 
     auto down = new_bound();
     down->owner = output;
     down->curr_edge = b;
     b->bound = down;
-    down->wind_dx = b->wind_dx;
+    down->wind_dx = a_is_left ? -1 : 1;
     down->stop_x = b->curr_x;
 
     if (!up->is_up()) {
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 0d123f5..7475f61 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -188,7 +188,7 @@ namespace vatti
     void resort_ael(num y);
     void build_output(path_traverse_funcs write_func, void* output);
     void join_output(out_bound* a, out_bound* b, num y);
-    void new_output(edge* a, edge* b);
+    void new_output(edge* a, edge* b, bool a_is_left);
     void update_bound(out_bound* bound, edge* new_edge);
     void delete_obl_bound(out_bound*);
     edge* do_maxima(edge* e);
-- 
2.43.0


From 8b0e3c65b10163d4ccbcc01e71df63962e7df37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 02/24] fix: insert the second edge of a local minimum by its
 own AEL position

---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 9fb7259..4992439 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -758,7 +758,7 @@ namespace vatti
       b->curr_x = b->bot.x;
 
       insert_into_ael(a);
-      insert_into_ael(a->prev_in_ael, b);
+      insert_into_ael(b);
       insert_scanline(a->top.y);
       insert_scanline(b->top.y);
     }
-- 
2.43.0


From db8c7f76998296c050b5c07961f849f518a01b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 03/24] fix: dist2_point_line measures the distance to the
 infinite line

---
 src/src/rmath.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 3d2ce07..6bc1af6 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -54,21 +54,15 @@ namespace rmath
 
   vec2 operator*(double sc, const vec2& v) { return v * sc; }
   double dist2_point_line(const vec2& p, const vec2& l0, const vec2& l1) {
-    vec2 AC, D;
+    vec2 AC;
     AC = p - l0;
     vec2 AB = l1 - l0;
     double f = 0, d = AB.dist2(), res;
-    f = AB.dot(AC);
-    if (f < 0)
+    f = AB.cross(AC);
+    if (d == 0)
       res = AC.dist2();
-    else if (f > d)
-      res = (p - l1).dist2();
     else
-    {
-      f = f / d;
-      D = l0 + AB * f;
-      res = (p - D).dist2();
-    }
+      res = f * f / d;
 
     return res;
   }
-- 
2.43.0


From 4ef1adc1c5b9050cf8029ca2401a47c75cb3d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 04/24] fix: resort_ael must find every edge at a reordered x

---
 src/src/vatti.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 4992439..2e2dd8f 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1223,23 +1223,20 @@ namespace vatti
     std::sort(list.begin(), list.end());
     list.erase(std::unique(list.begin(), list.end()), list.end());
 
-    auto it = list.begin();
     auto e = ael_first;
 
     std::vector<edge*> reinsert_list;
-    while (it != list.end() && e) {
-      if (e->curr_x == *it) {
+    // the AEL need not be sorted by curr_x after a horizontal: look at every edge
+    while (e) {
+      auto next = e->next_in_ael;
+      if (std::binary_search(list.begin(), list.end(), e->curr_x)) {
         reinsert_list.push_back(e);
-        auto next = e->next_in_ael;
         // 重新排列也意味着原来的bound有可能失效
         if (e->bound) e->bound->curr_edge = nullptr;
         e->bound = nullptr;
         take_from_ael(e);
-        e = next;
       }
-      else if (*it < e->curr_x)
-        ++it;
-      else e = e->next_in_ael;
+      e = next;
     }
 
     for (auto e : reinsert_list) insert_into_ael(e);
-- 
2.43.0


From 68787daaae7ceee9b209f27118f4084119218363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 05/24] fix: keep intersection points on axis-parallel segments
 exactly on them

---
 src/src/rmath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 6bc1af6..adb57fe 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -157,6 +157,9 @@ namespace rmath
     if (in_l && in_r) {
       res.count = 1;
       res.data[0].p = (p0 + a * na);
+      // an intersection with an axis-parallel segment lies exactly on it
+      if (p2.y == p3.y) res.data[0].p.y = p2.y;
+      if (p2.x == p3.x) res.data[0].p.x = p2.x;
       res.data[0].t0 = na;
       res.data[0].t1 = nb;
     }
@@ -198,6 +201,9 @@ namespace rmath
       if (0 <= t && t <= 1) {
         // ToDo 由于计算精度的问题，这里应该很难算出同一个点，特别实在交点靠近任意一方的端点时
         auto p = curve.point_at(t);
+        // an intersection with an axis-parallel segment lies exactly on it
+        if (segment.p0.y == segment.p1.y) p.y = segment.p0.y;
+        else if (segment.p0.x == segment.p1.x) p.x = segment.p0.x;
         if (point_between_two_point(p, segment.p0, segment.p1)) {
           auto& data = res.data[res.count];
           data.p = p;
-- 
2.43.0


From 3e4a7e9dd76a0c9064c9c009c24617b40c8911c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 06/24] fix: bezier_cubic::split_y returns its parameters in
 ascending order

---
 src/src/rmath.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index adb57fe..2c3dadf 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -428,6 +428,7 @@ namespace rmath
       k = std::sqrt(k);
       auto r1 = (-b + k) / (2 * a);
       auto r2 = (-b - k) / (2 * a);
+      if (r1 > r2) std::swap(r1, r2);
 
       std::vector<double> res;
       if (0 < r1 && r1 < 1) {
-- 
2.43.0


From a149aac16adaa8a1660c0b3a98753b134990a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 07/24] fix: a second process() must not emit the polygons of
 the first one again

---
 src/src/vatti.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 2e2dd8f..9726c9c 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -352,6 +352,7 @@ namespace vatti
     cur_locmin_it = local_minima_list.begin();
     ael_first = nullptr;
     obl_first = nullptr;
+    output_list.clear();
   }
 
   void clipper::add_path(const paths& paths, path_type polytype, bool is_open)
-- 
2.43.0


From f9856814d7535ecbd98d317291e078bc696fd299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 08/24] fix: make_path must not draw into a path that does not
 exist yet

---
 src/src/river.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/river.cpp b/src/src/river.cpp
index b71edd9..8b1788b 100644
--- a/src/src/river.cpp
+++ b/src/src/river.cpp
@@ -34,12 +34,12 @@ namespace river
       path& back() const { return _path->back(); }
 
       void moveto(point const& p) const { _path->push_back(path()); back().moveto(p); }
-      void lineto(const point& p) const { back().lineto(p); }
+      void lineto(const point& p) const { if (!_path->empty()) back().lineto(p); }
       void arcto(arc_pack const& pack) const {
         //back().arcto(fusion::at_c<1>(pack), fusion::at_c<2>(pack));
       }
       void cubicto(cubic_pack const& pack) const {
-        back().cubicto(fusion::at_c<1>(pack), fusion::at_c<2>(pack), fusion::at_c<3>(pack));
+        if (!_path->empty()) back().cubicto(fusion::at_c<1>(pack), fusion::at_c<2>(pack), fusion::at_c<3>(pack));
       }
     };
 
-- 
2.43.0


From d929f65fbf2686a002a9c93c59f5de82487415d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 09/24] fix: rect::inflated grows the max corner from max

---
 src/include/rmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/rmath.h b/src/include/rmath.h
index d90cf17..13cb908 100644
--- a/src/include/rmath.h
+++ b/src/include/rmath.h
@@ -74,7 +74,7 @@ namespace rmath
     num height() const { return max.y - min.y; }
     point_type center() const { return (max + min) / 2; }
 
-    rect inflated(const num& n) const { return rect(min - n, min + n); }
+    rect inflated(const num& n) const { return rect(min - n, max + n); }
 
     static rect from(std::initializer_list<point_type> _Ilist)
     {
-- 
2.43.0


From a093a251a8e25a09a06c18e6f09e2fcf5ccf92e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:38 +0000
Subject: [PATCH 10/24] fix: point_project_in_segment must reject projections
 before p0

---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 2c3dadf..f8ea6ce 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -78,7 +78,7 @@ namespace rmath
     vec2 u = p - p0;
 
     double sc = v.dot(u) / v.dot(v);
-    return sc <= 1;
+    return 0 <= sc && sc <= 1;
   }
 
   bool point_between_two_point(const vec2& p, const vec2& p0, const vec2& p1)
-- 
2.43.0


From 5a20645db0889d26cf19eaaae9dcf71142b66f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:02 +0000
Subject: [PATCH 11/24] fix: cubic solver must not divide by a cancelled cube
 root (NaN for x^3 + q, q > 0)

---
 src/src/rmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index f8ea6ce..a0f8490 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -791,7 +791,8 @@ namespace rmath
       //此时v1, w1均为实数
       //只有一个实数解则只能是y1 = v1 + w1
       double sqrtk = std::sqrt(k);
-      double v1 = std::cbrt(-q / 2 + sqrtk);
+      // take the root whose terms do not cancel: v1 must not be 0 (p == 0, q > 0)
+      double v1 = std::cbrt(q > 0 ? -q / 2 - sqrtk : -q / 2 + sqrtk);
       double w1 = -p / (3 * v1);
 
       res.count = 1;
-- 
2.43.0


From 262caa22bb406db2b337321203ab850f5779a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 12/24] fix: cubic solver uses the full-precision pi

---
 src/src/rmath.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index a0f8490..fc644e8 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -815,8 +815,6 @@ namespace rmath
 
       double r = std::sqrt(q * q / 4 - k);
       double AAA = 2 * std::cbrt(r);
-      constexpr double pi = 3.1415926535;
-
       res.count = 3;
       res.data[0] = minus * AAA * std::cos(phi / 3) - a / 3;
       res.data[1] = minus * AAA * std::cos((phi + 2 * pi) / 3) - a / 3;
-- 
2.43.0


From 6e20e7c30761331b888b4cc5e0dcf83cf71fac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:23 +0000
Subject: [PATCH 13/24] fix: clamp_0_2pi never returns 2pi

---
 src/src/rmath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index fc644e8..a8c0662 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -9,7 +9,9 @@ namespace rmath
 
   double clamp_0_2pi(double rad) {
     rad = remainder(rad, pi * 2);
-    return std::signbit(rad) ? rad + pi * 2 : rad;
+    if (std::signbit(rad)) rad += pi * 2;
+    // -0.0 and tiny negative values round up to 2pi, which is outside [0,2pi)
+    return rad < pi * 2 ? rad : 0;
   }
 
   bool rect::intersect(const rect& r) const
-- 
2.43.0


From ee72793b126cced1ace44471654c09582eebf2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:02 +0000
Subject: [PATCH 14/24] fix: intersecting a cubic with itself must terminate

---
 src/src/rmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index a8c0662..02dabcf 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -870,6 +870,9 @@ namespace rmath
     data p1{ b1,rough_rect(b1),0,1,0 };
     data p2{ b2,rough_rect(b2),0,1,0 };
     if (!p1.bbox.intersect(p2.bbox)) return res;
+    // coincident curves have no isolated intersection (subdividing them never ends)
+    if (b1.p0 == b2.p0 && b1.p1 == b2.p1 && b1.p2 == b2.p2 && b1.p3 == b2.p3) return res;
+    if (b1.p0 == b2.p3 && b1.p1 == b2.p2 && b1.p2 == b2.p1 && b1.p3 == b2.p0) return res;
 
     pairs.push_back(data_pair(p1, p2));
     while (!pairs.empty()) {
-- 
2.43.0


From 1ed80c511a5fa18131595ad68fe3ff60d84d6fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 15/24] fix: the x of an edge at a height must not depend on
 the direction of the edge

---
 src/src/segment.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/segment.h b/src/src/segment.h
index b0597f7..77425bf 100644
--- a/src/src/segment.h
+++ b/src/src/segment.h
@@ -73,7 +73,10 @@ namespace river {
       target = from;
     }
     virtual double curr_x(const point& from, double y) const override {
-      return (target.x - from.x) * (y - from.y) / (target.y - from.y) + from.x;
+      // 总是由下往上计算，重合而反向的边必须得到同样的结果
+      const point& bot = from.y < target.y ? from : target;
+      const point& top = from.y < target.y ? target : from;
+      return (top.x - bot.x) * (y - bot.y) / (top.y - bot.y) + bot.x;
     }
   };
 
-- 
2.43.0


From a60a57adb6dc962b07ab7ec29807bf6926015e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 16/24] fix: a crossing close to the end of a long edge is
 still a crossing

---
 src/src/vatti.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 9726c9c..b408a57 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -51,6 +51,15 @@ namespace vatti
   constexpr double zero = 0 + err;
   constexpr double one = 1 - err;
 
+  inline bool is_near(const point& a, const point& b) {
+    return std::abs(a.x - b.x) < err && std::abs(a.y - b.y) < err;
+  }
+
+  // t alone does not tell the ends apart on a long edge
+  inline bool is_inner_point(double t, const point& p, const point& from, const point& to) {
+    return (zero < t && t < one) || (!is_near(p, from) && !is_near(p, to));
+  }
+
   // ToDO: 判断没齐全
   bool is_vaild(const path& p) {
     return p.data.size() > 1;
@@ -1561,8 +1570,8 @@ namespace vatti
       auto res = rmath::intersect(l->pt, lseg->get_target(), r->pt, rseg->get_target());
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ l,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ r,data.p,data.t1 });
+        if (is_inner_point(data.t0, data.p, l->pt, lseg->get_target())) break_info_list.push_back({ l,data.p,data.t0 });
+        if (is_inner_point(data.t1, data.p, r->pt, rseg->get_target())) break_info_list.push_back({ r,data.p,data.t1 });
       }
       break;
     }
-- 
2.43.0


From 474f7c54d9ea6ddeaee92979a869e8c79d97539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 17/24] fix: crossings that differ only by rounding become one
 point

---
 src/src/vatti.cpp | 68 ++++++++++++++++++++++++++++++++++++++++++++++-
 src/src/vatti.h   |  1 +
 2 files changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index b408a57..e52266f 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -50,6 +50,7 @@ namespace vatti
   constexpr double err = 1e-6;
   constexpr double zero = 0 + err;
   constexpr double one = 1 - err;
+  constexpr double snap = 1e-9; // of the extent
 
   inline bool is_near(const point& a, const point& b) {
     return std::abs(a.x - b.x) < err && std::abs(a.y - b.y) < err;
@@ -578,6 +579,66 @@ namespace vatti
 #endif
   }
 
+  // A crossing found from several pairs of edges must become one point, and
+  // crossings at one height must get the same y, whatever the rounding.
+  void clipper::snap_break_points()
+  {
+    if (break_info_list.empty()) return;
+
+    struct item {
+      point pt;
+      break_info* info;
+    };
+    std::vector<item> items;
+    for (auto& start : paths_start) {
+      auto cur = start;
+      do {
+        items.push_back({ cur->pt, nullptr });
+        cur = cur->next;
+      } while (cur != start);
+    }
+    for (auto& info : break_info_list) items.push_back({ info.break_point, &info });
+
+    auto by_y = [](const item& l, const item& r) { return l.pt.y < r.pt.y; };
+    auto by_x = [](const item& l, const item& r) { return l.pt.x < r.pt.x; };
+    // replace the coordinates of the breaks in every run of values closer than eps
+    // by that of a vertex in the run, if there is one
+    auto unify = [](auto begin, auto end, num point::* coord, num eps, auto on_run) {
+      while (begin != end) {
+        auto run_end = begin;
+        auto fixed = begin;
+        num last = begin->pt.*coord;
+        while (run_end != end && run_end->pt.*coord - last <= eps) {
+          last = run_end->pt.*coord;
+          if (fixed->info && !run_end->info) fixed = run_end;
+          ++run_end;
+        }
+        num value = fixed->pt.*coord;
+        for (auto it = begin; it != run_end; ++it)
+          if (it->info) it->pt.*coord = value;
+        on_run(begin, run_end);
+        begin = run_end;
+      }
+    };
+
+    auto xs = std::minmax_element(items.begin(), items.end(), by_x);
+    num eps_x = (xs.second->pt.x - xs.first->pt.x) * snap;
+    std::sort(items.begin(), items.end(), by_y);
+    num eps_y = (items.back().pt.y - items.front().pt.y) * snap;
+
+    unify(items.begin(), items.end(), &point::y, eps_y, [&](auto row, auto row_end) {
+      std::sort(row, row_end, by_x);
+      unify(row, row_end, &point::x, eps_x, [](auto, auto) {});
+    });
+
+    for (auto& it : items)
+      if (it.info) it.info->break_point = it.pt;
+    break_info_list.erase(std::remove_if(break_info_list.begin(), break_info_list.end(),
+      [](const break_info& b) {
+        return b.break_point == b.vert->pt || b.break_point == b.vert->next->pt;
+      }), break_info_list.end());
+  }
+
   void clipper::process_intersect()
   {
     break_info_list.clear();
@@ -603,12 +664,17 @@ namespace vatti
     }
 #endif
 
+    snap_break_points();
+
     std::sort(break_info_list.begin(), break_info_list.end(),
       [](break_info const& l, break_info const& r) {
         if (l.vert != r.vert) return l.vert < r.vert;
     return l.t < r.t;
       });
-    break_info_list.erase(std::unique(break_info_list.begin(), break_info_list.end()), break_info_list.end());
+    break_info_list.erase(std::unique(break_info_list.begin(), break_info_list.end(),
+      [](break_info const& l, break_info const& r) {
+        return l.vert == r.vert && l.break_point == r.break_point;
+      }), break_info_list.end());
 
     auto start = break_info_list.begin();
     auto end = start;
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 7475f61..84d2cbe 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -166,6 +166,7 @@ namespace vatti
     out_polygon* new_out_polygon();
     segment* copy_seg(const edge* e, bool reverse = false);
 
+    void snap_break_points();
     void process_intersect();
     void add_local_min(vertex* vert, path_type pt, bool is_open);
     void reset();
-- 
2.43.0


From 94e2069fee0a0343af5361f73b78ab9636be20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 18/24] fix: scan_line frees its points and segments

---
 src/src/scan_line.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/src/scan_line.h b/src/src/scan_line.h
index 113b16c..2e5a547 100644
--- a/src/src/scan_line.h
+++ b/src/src/scan_line.h
@@ -72,10 +72,17 @@ namespace scan_line
       };
     };
 
+    scan_line() = default;
+    scan_line(const scan_line&) = delete;
+    scan_line& operator=(const scan_line&) = delete;
+    ~scan_line() {
+      for (auto p : scan_points) delete p;
+      for (auto s : segments) delete s;
+    }
+
     void add_segment(const segment& in);
     void process(void* user);
 
-
   private:
     // 查找或新增
     scan_point* get_point(const ct& x);
-- 
2.43.0


From 95be4f1a7c70e5334a0e12b8c11388859be91d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:07 +0000
Subject: [PATCH 19/24] fix: segments with a common end cross only there

---
 src/src/rmath.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 02dabcf..158f94d 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -149,6 +149,17 @@ namespace rmath
       return res;
     }
 
+    const bool from_p0 = p0 == p2 || p0 == p3;
+    const bool from_p1 = p1 == p2 || p1 == p3;
+    if (from_p0 || from_p1) {
+      // segments with a common end meet there only, however flat the angle
+      res.count = 1;
+      res.data[0].p = from_p0 ? p0 : p1;
+      res.data[0].t0 = from_p0 ? 0 : 1;
+      res.data[0].t1 = res.data[0].p == p2 ? 0 : 1;
+      return res;
+    }
+
     const double reciprocal = 1 / denominator;
     const double na = (b.y * c.x - b.x * c.y) * reciprocal;
     const double nb = (a.x * c.y - a.y * c.x) * reciprocal;
-- 
2.43.0


From da3134e8c27d682aa78b439d99bbdf67a46dd9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:24 +0000
Subject: [PATCH 20/24] fix: a curve is cut at its turning points alike in both
 directions

---
 src/src/vatti.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index e52266f..d4d0be1 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -269,6 +269,10 @@ namespace vatti
       return;
     }
 
+    // 总是沿同一方向打断，重合而反向的曲线必须得到同样的分段
+    const bool reverse = from.y != to.y ? to.y < from.y : to.x < from.x;
+    if (reverse) b = { to, ctrl2, ctrl1, from };
+
     double split_t[] = { -1,-1 };
     b.split_y(split_t, split_t + 1);
     // 在误差范围内检查
@@ -279,6 +283,10 @@ namespace vatti
     }
     bezier_cubic tmp[3];
     b.split(recheck_t.data(), tmp, recheck_t.size());
+    if (reverse) {
+      std::reverse(tmp, tmp + recheck_t.size() + 1);
+      for (auto& c : tmp) c = { c.p3, c.p2, c.p1, c.p0 };
+    }
     switch (recheck_t.size())
     {
     case 2:
-- 
2.43.0


From b9ee3dab0eaf62d98e27eebb3ecd04c6d0934935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:29 +0000
Subject: [PATCH 21/24] fix: segments that coincide up to rounding are
 collinear

---
 src/src/rmath.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 158f94d..48eb0cc 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -101,10 +101,11 @@ namespace rmath
     const vec2 c = p0 - p2;
 
     const double denominator = a.y * b.x - a.x * b.y;
-    if (denominator == 0 || !std::isfinite(denominator))
+    // 容许舍入误差，否则几乎重合的线段会得到毫无意义的交点
+    if (denominator * denominator <= 1e-24 * a.dot(a) * b.dot(b) || !std::isfinite(denominator))
     {
       // 此时平行
-      if (dist2_point_line(p0, p2, p3) == 0)
+      if (dist2_point_line(p0, p2, p3) <= 1e-24 * (std::max)(a.dot(a), b.dot(b)))
       {
         // 此时共线
         if (p0 != p2 && p0 != p3 && point_between_two_point(p0, p2, p3)) {
-- 
2.43.0


From 3fe65970a053d6a9a8a53aba3c20fb743569a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:33 +0000
Subject: [PATCH 22/24] fix: intersecting curves that coincide in part
 terminates

---
 src/src/rmath.cpp | 69 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 48eb0cc..6b6b720 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -868,6 +868,69 @@ namespace rmath
     }
   };
 
+  // the stretch of b from t0 to t1, which may descend
+  inline bezier_cubic stretch(const bezier_cubic& b, double t0, double t1)
+  {
+    const double t[] = { (std::min)(t0, t1), (std::max)(t0, t1) };
+    bezier_cubic out[3];
+    b.split(t, out, 2);
+    if (t0 <= t1) return out[1];
+    return { out[1].p3, out[1].p2, out[1].p1, out[1].p0 };
+  }
+
+  // The ends of the common stretch of two curves which coincide there, none if there is no such
+  // stretch.
+  cubic_intersect_result intersect_coincident(const bezier_cubic& b1, const bezier_cubic& b2)
+  {
+    cubic_intersect_result res;
+    res.count = 0;
+
+    const rect box = rect::from({ b1.p0, b1.p1, b1.p2, b1.p3, b2.p0, b2.p1, b2.p2, b2.p3 });
+    const double eps = 1e-9 * (std::max)(box.max.x - box.min.x, box.max.y - box.min.y);
+    const auto is_near = [eps](const vec2& l, const vec2& r) {
+      return (std::abs)(l.x - r.x) <= eps && (std::abs)(l.y - r.y) <= eps;
+    };
+    const auto find = [&is_near](const bezier_cubic& b, const vec2& p, double& t) {
+      if (is_near(b.p0, p)) { t = 0; return true; }
+      if (is_near(b.p3, p)) { t = 1; return true; }
+      // the nearest of some points, and from there to the nearest point
+      t = 0;
+      for (int i = 1; i < 32; ++i) {
+        const vec2 best = b.point_at(t) - p, cur = b.point_at(i / 32.0) - p;
+        if (cur.dot(cur) < best.dot(best)) t = i / 32.0;
+      }
+      for (int i = 0; i < 8; ++i) {
+        const double u = 1 - t;
+        const vec2 d = (b.p1 - b.p0) * (3 * u * u) + (b.p2 - b.p1) * (6 * u * t) + (b.p3 - b.p2) * (3 * t * t);
+        if (d.dot(d) > 0) t += (p - b.point_at(t)).dot(d) / d.dot(d);
+        t = (std::min)(1.0, (std::max)(0.0, t));
+      }
+      return is_near(b.point_at(t), p);
+    };
+    const auto add = [&res](const vec2& p, double t0, double t1) {
+      for (int i = 0; i < res.count; ++i)
+        if ((std::abs)(res.data[i].t0 - t0) < 1e-8) return;
+      res.data[res.count].p = p;
+      res.data[res.count].t0 = t0;
+      res.data[res.count].t1 = t1;
+      ++res.count;
+    };
+
+    double t;
+    if (find(b2, b1.p0, t)) add(b1.p0, 0, t);
+    if (find(b2, b1.p3, t)) add(b1.p3, 1, t);
+    if (find(b1, b2.p0, t)) add(b2.p0, t, 0);
+    if (find(b1, b2.p3, t)) add(b2.p3, t, 1);
+
+    if (res.count >= 2) {
+      const auto l = stretch(b1, res.data[0].t0, res.data[1].t0);
+      const auto r = stretch(b2, res.data[0].t1, res.data[1].t1);
+      if (is_near(l.p1, r.p1) && is_near(l.p2, r.p2)) return res;
+    }
+    res.count = 0;
+    return res;
+  }
+
   // 使用bound计算近似轮廓，不计算自交内容
   cubic_intersect_result intersect(const bezier_cubic& b1, const bezier_cubic& b2, int precise)
   {
@@ -887,7 +950,13 @@ namespace rmath
     if (b1.p0 == b2.p3 && b1.p1 == b2.p2 && b1.p2 == b2.p1 && b1.p3 == b2.p0) return res;
 
     pairs.push_back(data_pair(p1, p2));
+    int steps = 0;
     while (!pairs.empty()) {
+      // far more than isolated crossings take
+      if (++steps == 2000) {
+        auto coincident = intersect_coincident(b1, b2);
+        if (coincident.count > 0) return coincident;
+      }
       auto back = pairs.back();
       pairs.pop_back();
 
-- 
2.43.0


From 031bd2952b06eac7cd4b0f1516c470924b2bba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:01 +0000
Subject: [PATCH 23/24] fix: writing callbacks that are not given are skipped

---
 src/src/vatti.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index d4d0be1..ee89803 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1339,11 +1339,11 @@ namespace vatti
       case seg_type::cubicto:
       {
         auto cubicto_ = (seg_cubicto*)(seg_);
-        write_func.cubic_to(last_pt, cubicto_->ctrl1, cubicto_->ctrl2, cubicto_->target, output);
+        if (write_func.cubic_to) write_func.cubic_to(last_pt, cubicto_->ctrl1, cubicto_->ctrl2, cubicto_->target, output);
         break;
       }
       default:
-        write_func.line_to(last_pt, seg_->get_target(), output);
+        if (write_func.line_to) write_func.line_to(last_pt, seg_->get_target(), output);
         break;
       }
       last_pt = seg_->get_target();
@@ -1360,7 +1360,7 @@ namespace vatti
           continue;
 
         point last(0);
-        write_func.move_to(last, out->origin, output);
+        if (write_func.move_to) write_func.move_to(last, out->origin, output);
         last = out->origin;
 
         write_path(write_func, output, last,
-- 
2.43.0


From 4968a74992aaa2326836a279f638b22fa105f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:19 +0000
Subject: [PATCH 24/24] fix: the test for parallel segments does not underflow

---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 6b6b720..0ce96c1 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -102,7 +102,7 @@ namespace rmath
 
     const double denominator = a.y * b.x - a.x * b.y;
     // 容许舍入误差，否则几乎重合的线段会得到毫无意义的交点
-    if (denominator * denominator <= 1e-24 * a.dot(a) * b.dot(b) || !std::isfinite(denominator))
+    if (std::abs(denominator) <= 1e-12 * (std::abs(a.x) + std::abs(a.y)) * (std::abs(b.x) + std::abs(b.y)) || !std::isfinite(denominator))
     {
       // 此时平行
       if (dist2_point_line(p0, p2, p3) <= 1e-24 * (std::max)(a.dot(a), b.dot(b)))
-- 
2.43.0

