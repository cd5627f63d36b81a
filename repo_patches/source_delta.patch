From 5fa4cef5278a65d5a104e2c7a9f8a3b8449a2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 01/26] fix: do not propagate tags across edges of faces shared
 by two meshes

Faces shared by both meshes are excluded from the intersection search, so
their edges were not regarded as intersecting edges. Faces around
non-manifold edges of such faces could be tagged as coplanar, or not be
classified at all.
---
 include/kigumi/Corefine.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/kigumi/Corefine.h b/include/kigumi/Corefine.h
index cceb1bf..32710ed 100644
--- a/include/kigumi/Corefine.h
+++ b/include/kigumi/Corefine.h
@@ -221,6 +221,20 @@ class Corefine {
       }
     }
 
+    // Coplanar faces found beforehand are excluded from the intersections.
+    for (auto fi : left_.faces()) {
+      if (left_face_tags_.at(fi.idx()) == Face_tag::UNKNOWN) {
+        continue;
+      }
+
+      const auto& f = left_.face(fi);
+      for (std::size_t i = 0; i < 3; ++i) {
+        auto a = left_point_ids_.at(f[i].idx());
+        auto b = left_point_ids_.at(f[(i + 1) % 3].idx());
+        edges.insert(make_edge(Vertex_index{a}, Vertex_index{b}));
+      }
+    }
+
     return edges;
   }
 
-- 
2.43.0


From 817c803ed29a8ef255a41190ad56608ca6338dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 02/26] fix: triangulate overlapping faces of opposite
 orientations consistently

Ties between cocircular points are broken depending on the direction of
the normal vector of the projection plane. If overlapping faces had
opposite orientations, the overlap could be triangulated in different ways
and the faces were not recognized as opposite faces.
---
 include/kigumi/Triangulation.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/kigumi/Triangulation.h b/include/kigumi/Triangulation.h
index a1e65c0..b619118 100644
--- a/include/kigumi/Triangulation.h
+++ b/include/kigumi/Triangulation.h
@@ -10,6 +10,7 @@
 #include <array>
 #include <boost/unordered/unordered_flat_map.hpp>
 #include <stdexcept>
+#include <utility>
 
 namespace kigumi {
 
@@ -17,6 +18,7 @@ template <class K>
 class Triangulation {
   using Point = typename K::Point_3;
   using CDT_traits = CGAL::Projection_traits_3<K>;
+  using Vector = typename K::Vector_3;
   using Vb = CGAL::Triangulation_vertex_base_with_info_2<std::size_t, CDT_traits>;
   using Fb = CGAL::Constrained_triangulation_face_base_2<CDT_traits>;
   using Tds = CGAL::Triangulation_data_structure_2<Vb, Fb>;
@@ -29,7 +31,9 @@ class Triangulation {
 
   Triangulation(Triangle_region f, const Point& pa, const Point& pb, const Point& pc, std::size_t a,
                 std::size_t b, std::size_t c)
-      : f_{f}, cdt_{make_cdt_traits(pa, pb, pc)} {
+      : f_{f},
+        is_flipped_{is_negative(CGAL::normal(pa, pb, pc))},
+        cdt_{make_cdt_traits(pa, pb, pc, is_flipped_)} {
     // To keep id_to_vh_ small, we do not insert these vertices into it.
     vhs_[0] = cdt_.insert_outside_affine_hull(pa);
     vhs_[0]->info() = a;
@@ -46,6 +50,9 @@ class Triangulation {
       auto a = Vertex_index{it->vertex(0)->info()};
       auto b = Vertex_index{it->vertex(1)->info()};
       auto c = Vertex_index{it->vertex(2)->info()};
+      if (is_flipped_) {
+        std::swap(b, c);
+      }
       *faces++ = {a, b, c};
       ++count;
     }
@@ -128,11 +135,21 @@ class Triangulation {
     return it->second;
   }
 
-  static CDT_traits make_cdt_traits(const Point& pa, const Point& pb, const Point& pc) {
-    return CDT_traits{CGAL::normal(pa, pb, pc)};
+  static CDT_traits make_cdt_traits(const Point& pa, const Point& pb, const Point& pc,
+                                    bool is_flipped) {
+    auto normal = CGAL::normal(pa, pb, pc);
+    return CDT_traits{is_flipped ? -normal : normal};
+  }
+
+  // Ties between cocircular points are broken depending on the direction of the normal vector of
+  // the projection plane. Overlapping parts of coplanar faces must be triangulated in the same way
+  // even if the faces have opposite orientations, so the direction needs to be normalized.
+  static bool is_negative(const Vector& v) {
+    return CGAL::compare_xyz(CGAL::ORIGIN + v, Point{CGAL::ORIGIN}) == CGAL::SMALLER;
   }
 
   Triangle_region f_{};
+  bool is_flipped_{};
   CDT cdt_;
   std::array<Vertex_handle, 3> vhs_;
   boost::unordered_flat_map<std::size_t, Vertex_handle> id_to_vh_;
-- 
2.43.0


From 3dd6efde6f99ec8e3c62bf89cc7a338f97422451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 03/26] fix: do not classify faces across the outside of the
 clipping region

At an edge where open meshes are clipped, two faces of the same orientation
are not adjacent through the outside of the clipping region. Depending on
the radial order, correct tags were overwritten with wrong ones.
---
 include/kigumi/Classify_faces_locally.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/kigumi/Classify_faces_locally.h b/include/kigumi/Classify_faces_locally.h
index 7caecd5..82c18bf 100644
--- a/include/kigumi/Classify_faces_locally.h
+++ b/include/kigumi/Classify_faces_locally.h
@@ -11,6 +11,7 @@
 #include <kigumi/Warnings.h>
 
 #include <algorithm>
+#include <cstddef>
 #include <stdexcept>
 #include <vector>
 
@@ -88,6 +89,7 @@ class Classify_faces_locally {
 
     // Find pairs of non-overlapping and non-orientable faces and tag them.
 
+    auto is_open = !is_balanced(m, true) || !is_balanced(m, false);
     auto is_undefined_configuration = true;
     // At the end of the loop, the kth face is tagged as either interior or exterior.
     std::size_t k{};
@@ -105,6 +107,12 @@ class Classify_faces_locally {
 
       // Neither f nor g is overlapping with adjacent faces.
 
+      if (is_open && CGAL::orientation(f.r, g.r) <= 0) {
+        // The edge is on the boundary of the convex region with which the open meshes are clipped,
+        // and there is the outside of that region between f and g.
+        continue;
+      }
+
       if (f.orientation == g.orientation) {
         if (f.orientation == CGAL::COUNTERCLOCKWISE) {
           f_data.tag = Face_tag::INTERIOR;
@@ -241,6 +249,17 @@ class Classify_faces_locally {
     }
   };
 
+  // Returns false if the edge is on the boundary of the left or the right mesh.
+  bool is_balanced(const Mixed_triangle_mesh<K, FaceData>& m, bool from_left) const {
+    std::ptrdiff_t balance{};
+    for (const auto& f : faces_) {
+      if (m.data(f.fi).from_left == from_left) {
+        balance += f.orientation == CGAL::COUNTERCLOCKWISE ? 1 : -1;
+      }
+    }
+    return balance == 0;
+  }
+
   mutable std::vector<Face_around_edge> faces_;
   mutable Propagate_face_tags propagate_face_tags_;
 };
-- 
2.43.0


From 41713e7c71acc92b3e97f147b1d0cca51dc974bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 04/26] fix: Give each worker its own Face_face_intersection
 instead of a thread_local one

The thread_local object kept a reference to the points of the operation that
first ran in the thread. When a loop ran in the calling thread, because it was
set to one thread or had one item, the next operation in that thread read the
points of the previous one after they were destroyed.
---
 include/kigumi/Corefine.h     |  9 +++++----
 include/kigumi/Find_defects.h | 12 ++++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/kigumi/Corefine.h b/include/kigumi/Corefine.h
index 32710ed..82428ec 100644
--- a/include/kigumi/Corefine.h
+++ b/include/kigumi/Corefine.h
@@ -62,9 +62,11 @@ class Corefine {
 
     std::size_t num_intersections{};
     parallel_do(
-        pairs.begin(), pairs.end(), std::pair<std::vector<Intersection_info>, std::size_t>{},
+        pairs.begin(), pairs.end(),
+        std::tuple<std::vector<Intersection_info>, std::size_t, Face_face_intersection>{
+            std::vector<Intersection_info>{}, std::size_t{}, Face_face_intersection{points_}},
         [&](const auto& pair, auto& local_state) {
-          thread_local Face_face_intersection face_face_intersection{points_};
+          auto& [local_infos, local_num_intersections, face_face_intersection] = local_state;
 
           auto [left_fi, right_fi] = pair;
           const auto& left_face = left_.face(left_fi);
@@ -79,12 +81,11 @@ class Corefine {
           if (sym_inters.empty()) {
             return;
           }
-          auto& [local_infos, local_num_intersections] = local_state;
           local_infos.emplace_back(left_fi, right_fi, sym_inters);
           local_num_intersections += sym_inters.size();
         },
         [&](auto& local_state) {
-          auto& [local_infos, local_num_intersections] = local_state;
+          auto& [local_infos, local_num_intersections, face_face_intersection] = local_state;
           if (infos_.empty()) {
             infos_ = std::move(local_infos);
           } else {
diff --git a/include/kigumi/Find_defects.h b/include/kigumi/Find_defects.h
index a318df7..f3b34c0 100644
--- a/include/kigumi/Find_defects.h
+++ b/include/kigumi/Find_defects.h
@@ -23,6 +23,7 @@ namespace kigumi {
 
 template <class K, class FaceData>
 class Find_defects {
+  using Face_face_intersection = Face_face_intersection<K>;
   using Point_list = Point_list<K>;
   using Triangle_soup = Triangle_soup<K, FaceData>;
   using Leaf = typename Triangle_soup::Leaf;
@@ -300,9 +301,11 @@ class Find_defects {
     const auto& tree = m.aabb_tree();
 
     parallel_do(
-        m.faces_begin(), m.faces_end(), std::vector<Face_index>{},
-        [&](auto fi, auto& local_fis) {
-          thread_local Face_face_intersection face_face_intersection{points};
+        m.faces_begin(), m.faces_end(),
+        std::pair<std::vector<Face_index>, Face_face_intersection>{std::vector<Face_index>{},
+                                                                   Face_face_intersection{points}},
+        [&](auto fi, auto& local_state) {
+          auto& [local_fis, face_face_intersection] = local_state;
           thread_local std::vector<const Leaf*> leaves;
           thread_local std::vector<Vertex_index> shared_vertices;
 
@@ -352,7 +355,8 @@ class Find_defects {
             }
           }
         },
-        [&](auto& local_fis) {
+        [&](auto& local_state) {
+          auto& [local_fis, face_face_intersection] = local_state;
           if (fis.empty()) {
             fis = std::move(local_fis);
           } else {
-- 
2.43.0


From b20a2fe50681a6378e1ffa89f74f62505ebbdeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 05/26] fix: discard the AABB tree of a triangle soup when a
 face is added

---
 include/kigumi/Triangle_soup.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index b07007f..7ca2c0a 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -84,6 +84,7 @@ class Triangle_soup {
   Face_index add_face(const Face& face) {
     faces_.push_back(face);
     face_data_.emplace_back();
+    aabb_tree_.reset();
     return Face_index{faces_.size() - 1};
   }
 
-- 
2.43.0


From 5507b497a0c005db027f92c7a2d939193f1aaf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 06/26] fix: respect the current number of threads in
 parallel_do without a state

---
 include/kigumi/parallel_do.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 149bb29..dc97879 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -80,8 +80,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
     return;
   }
 
-  auto num_threads = std::clamp(static_cast<std::size_t>(std::thread::hardware_concurrency()),
-                                std::size_t{1}, size);
+  auto num_threads = std::min(Threading_context::current().num_threads(), size);
   if (num_threads == 1) {
     for (auto it = first; it != last; ++it) {
       body(*it);
-- 
2.43.0


From f9f09f45da1be0627b1de3702d663fad9e976d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 07/26] fix: do not list a face among the faces around itself

---
 include/kigumi/Mesh_iterators.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Mesh_iterators.h b/include/kigumi/Mesh_iterators.h
index 20e7dd7..6cde95a 100644
--- a/include/kigumi/Mesh_iterators.h
+++ b/include/kigumi/Mesh_iterators.h
@@ -129,7 +129,11 @@ class Face_around_face_iterator
                             Face_around_edge_iterator end1, Face_around_edge_iterator it2,
                             Face_around_edge_iterator end2, Face_around_edge_iterator it3,
                             Face_around_edge_iterator end3)
-      : fi_{fi}, it1_{it1}, end1_{end1}, it2_{it2}, end2_{end2}, it3_{it3}, end3_{end3} {}
+      : fi_{fi}, it1_{it1}, end1_{end1}, it2_{it2}, end2_{end2}, it3_{it3}, end3_{end3} {
+    if (dereference() == fi_) {
+      increment();
+    }
+  }
 
  private:
   friend boost::iterator_core_access;
-- 
2.43.0


From be5d2dde46cebb60c95fbedcd781efcd86cd0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 08/26] fix: index unused trailing vertices, and index a mesh
 again from scratch

---
 include/kigumi/Triangle_mesh.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Triangle_mesh.h b/include/kigumi/Triangle_mesh.h
index 10d6d56..174f615 100644
--- a/include/kigumi/Triangle_mesh.h
+++ b/include/kigumi/Triangle_mesh.h
@@ -116,6 +116,8 @@ class Triangle_mesh {
 
     parallel_sort(map.begin(), map.end());
 
+    face_indices_.clear();
+    indices_.clear();
     face_indices_.reserve(3 * faces_.size());
     indices_.reserve(points_.size() + 1);
     std::size_t index{};
@@ -130,7 +132,8 @@ class Triangle_mesh {
       prev_v = v;
       ++index;
     }
-    indices_.push_back(index);
+    // Including the vertices after the last one used by a face, if any.
+    indices_.resize(points_.size() + 1, index);
   }
 
   std::size_t num_vertices() const { return points_.size(); }
-- 
2.43.0


From 3e075896f832118298c81359f1b3b602f1404b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 09/26] fix: make face tags atomic, for they are read and
 written in parallel

---
 include/kigumi/Mixed.h | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Mixed.h b/include/kigumi/Mixed.h
index 4625fbd..f7feffa 100644
--- a/include/kigumi/Mixed.h
+++ b/include/kigumi/Mixed.h
@@ -4,12 +4,48 @@
 #include <kigumi/Triangle_mesh.h>
 #include <kigumi/Triangle_soup.h>
 
+#include <atomic>
+
 namespace kigumi {
 
+// A face tag that can be read and written by several threads at the same time.
+class Atomic_face_tag {
+ public:
+  Atomic_face_tag() = default;
+
+  // NOLINTNEXTLINE(google-explicit-constructor)
+  Atomic_face_tag(Face_tag tag) : tag_{tag} {}
+
+  ~Atomic_face_tag() = default;
+
+  Atomic_face_tag(const Atomic_face_tag& other) noexcept : tag_{other.load()} {}
+
+  Atomic_face_tag(Atomic_face_tag&& other) noexcept : tag_{other.load()} {}
+
+  Atomic_face_tag& operator=(const Atomic_face_tag& other) noexcept {
+    tag_.store(other.load(), std::memory_order_relaxed);
+    return *this;
+  }
+
+  Atomic_face_tag& operator=(Atomic_face_tag&& other) noexcept {
+    tag_.store(other.load(), std::memory_order_relaxed);
+    return *this;
+  }
+
+  // NOLINTNEXTLINE(google-explicit-constructor)
+  operator Face_tag() const { return load(); }
+
+ private:
+  Face_tag load() const { return tag_.load(std::memory_order_relaxed); }
+
+  std::atomic<Face_tag> tag_{};
+};
+
 template <class FaceData>
 struct Mixed_face_data {
   bool from_left{};
-  Face_tag tag{};
+  // Faces are tagged in parallel.
+  Atomic_face_tag tag{};
   FaceData data{};
 };
 
-- 
2.43.0


From 6400e2bbe4f4d25fdd3608272c2ad280b0baeab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 10/26] fix: read the failure flag of parallel loops atomically

---
 include/kigumi/parallel_do.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index dc97879..48c51f2 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -31,6 +31,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
+  std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
 
@@ -48,7 +49,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
           body(*(first + index), local_state);
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
@@ -59,6 +60,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          failed = true;
         }
       }
     });
@@ -90,6 +92,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
+  std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
 
@@ -105,7 +108,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
           body(*(first + index));
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
@@ -113,6 +116,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          failed = true;
         }
       }
     });
-- 
2.43.0


From d4b538ecfa2a4c333438837761bb9059a69f4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 11/26] fix: reject damaged region files and leave the region
 unchanged then

---
 include/kigumi/Region.h        | 19 +++++++++++++--
 include/kigumi/Triangle_soup.h | 31 ++++++++++++++++++-------
 include/kigumi/io.h            | 42 ++++++++++++++++++++++++++--------
 3 files changed, 72 insertions(+), 20 deletions(-)

diff --git a/include/kigumi/Region.h b/include/kigumi/Region.h
index 35b4640..50d9ca4 100644
--- a/include/kigumi/Region.h
+++ b/include/kigumi/Region.h
@@ -30,6 +30,10 @@ struct Read<Region_kind> {
   void operator()(std::istream& in, Region_kind& t) const {
     std::uint8_t x{};
     kigumi_read<std::uint8_t>(in, x);
+    if (x > static_cast<std::uint8_t>(Region_kind::BOUNDARY_DEFINED)) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
     t = static_cast<Region_kind>(x);
   }
 };
@@ -108,8 +112,19 @@ struct Write<Region<K, FaceData>> {
 template <class K, class FaceData>
 struct Read<Region<K, FaceData>> {
   void operator()(std::istream& in, Region<K, FaceData>& t) const {
-    kigumi_read<Region_kind>(in, t.kind_);
-    kigumi_read<Triangle_soup<K, FaceData>>(in, t.boundary_);
+    Region_kind kind{};
+    Triangle_soup<K, FaceData> boundary;
+    kigumi_read<Region_kind>(in, kind);
+    kigumi_read<Triangle_soup<K, FaceData>>(in, boundary);
+
+    if ((kind == Region_kind::BOUNDARY_DEFINED) != (boundary.num_faces() != 0)) {
+      in.setstate(std::ios::failbit);
+    }
+
+    if (in) {
+      t.kind_ = kind;
+      t.boundary_ = std::move(boundary);
+    }
   }
 };
 
diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 7ca2c0a..5b567fc 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -13,6 +13,7 @@
 #include <kigumi/mesh_utility.h>
 
 #include <boost/range/iterator_range.hpp>
+#include <cmath>
 #include <cstdint>
 #include <iostream>
 #include <memory>
@@ -191,7 +192,9 @@ struct Read<Triangle_soup<K, FaceData>> {
     kigumi_read<std::int32_t>(in, num_vertices);
     kigumi_read<std::int32_t>(in, num_faces);
 
-    for (std::size_t i = 0; i < num_vertices; ++i) {
+    Triangle_soup<K, FaceData> new_t;
+
+    for (std::size_t i = 0; in && i < num_vertices; ++i) {
       bool is_exact{};
       kigumi_read<bool>(in, is_exact);
 
@@ -202,7 +205,10 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<double>(in, x);
         kigumi_read<double>(in, y);
         kigumi_read<double>(in, z);
-        t.add_vertex({x, y, z});
+        if (!std::isfinite(x) || !std::isfinite(y) || !std::isfinite(z)) {
+          in.setstate(std::ios::failbit);
+        }
+        new_t.add_vertex({x, y, z});
       } else {
         CGAL::Exact_rational x;
         CGAL::Exact_rational y;
@@ -210,21 +216,30 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<CGAL::Exact_rational>(in, x);
         kigumi_read<CGAL::Exact_rational>(in, y);
         kigumi_read<CGAL::Exact_rational>(in, z);
-        t.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
+        new_t.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
+                          CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
+                          CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
       }
     }
 
-    for (std::size_t i = 0; i < num_faces; ++i) {
+    for (std::size_t i = 0; in && i < num_faces; ++i) {
       Face face{};
       FaceData f_data{};
       kigumi_read<Vertex_index>(in, face[0]);
       kigumi_read<Vertex_index>(in, face[1]);
       kigumi_read<Vertex_index>(in, face[2]);
       kigumi_read<FaceData>(in, f_data);
-      auto fi = t.add_face(face);
-      t.data(fi) = f_data;
+      for (auto vi : face) {
+        if (vi.idx() >= num_vertices) {
+          in.setstate(std::ios::failbit);
+        }
+      }
+      auto fi = new_t.add_face(face);
+      new_t.data(fi) = f_data;
+    }
+
+    if (in) {
+      t = std::move(new_t);
     }
   }
 };
diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index 6d64381..8b467cd 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <algorithm>
 #include <boost/endian/conversion.hpp>
+#include <cstddef>
 #include <cstdint>
 #include <iostream>
 #include <stdexcept>
@@ -62,6 +64,20 @@ void kigumi_read(std::istream& in, T& t) {
   t = checked_cast<T>(x);
 }
 
+// Reads `count` bytes, which is not trusted: memory is allocated as bytes arrive.
+inline void read_bytes(std::istream& in, std::vector<std::uint8_t>& buf, std::size_t count) {
+  constexpr std::size_t max_chunk_size = 65536;
+
+  buf.clear();
+  while (in && buf.size() < count) {
+    auto offset = buf.size();
+    auto chunk_size = std::min(max_chunk_size, count - offset);
+    buf.resize(offset + chunk_size);
+    in.read(reinterpret_cast<char*>(buf.data() + offset),
+            static_cast<std::streamsize>(chunk_size));
+  }
+}
+
 template <>
 struct Write<bool> {
   void operator()(std::ostream& out, const bool& t) const {
@@ -114,15 +130,18 @@ struct Read<boost::multiprecision::cpp_rational> {
     std::size_t count{};
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    read_bytes(in, buf, count);
     import_bits(num, buf.begin(), buf.end());
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    read_bytes(in, buf, count);
     import_bits(den, buf.begin(), buf.end());
 
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
+
     t = boost::multiprecision::cpp_rational{std::move(num), std::move(den)};
     if (neg) {
       t = -std::move(t);
@@ -170,14 +189,17 @@ struct Read<mpq_class> {
     std::size_t count{};
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    mpz_import(num.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
+    read_bytes(in, buf, count);
+    mpz_import(num.get_mpz_t(), buf.size(), 1, 1, 0, 0, buf.data());
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    mpz_import(den.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
+    read_bytes(in, buf, count);
+    mpz_import(den.get_mpz_t(), buf.size(), 1, 1, 0, 0, buf.data());
+
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
 
     t = mpq_class{std::move(num)} / mpq_class{std::move(den)};
     if (neg) {
-- 
2.43.0


From 9d8b96990983ba138fb6f2cd8cd7fa6e73481244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 12/26] fix: write zero in the same way with
 Boost.Multiprecision as with GMP

---
 include/kigumi/io.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index 8b467cd..f8f3627 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -106,7 +106,9 @@ struct Write<boost::multiprecision::cpp_rational> {
     kigumi_write<bool>(out, t < 0);
 
     buf.clear();
-    export_bits(numerator(t), std::back_inserter(buf), 8);
+    if (t != 0) {
+      export_bits(numerator(t), std::back_inserter(buf), 8);
+    }
     kigumi_write<std::int32_t>(out, buf.size());
     out.write(reinterpret_cast<const char*>(buf.data()), static_cast<std::streamsize>(buf.size()));
 
-- 
2.43.0


From 80101cde597d64ae5da46a9208d385402a694e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 13/26] fix: report failures to write the end of a file

---
 include/kigumi/Region_io.h | 6 +++++-
 include/kigumi/io/obj.h    | 6 +++++-
 include/kigumi/io/off.h    | 6 +++++-
 include/kigumi/io/ply.h    | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/kigumi/Region_io.h b/include/kigumi/Region_io.h
index 3802d9d..989b667 100644
--- a/include/kigumi/Region_io.h
+++ b/include/kigumi/Region_io.h
@@ -44,7 +44,11 @@ bool write_kigumi_region(const std::string& filename, const Region<K, FaceData>&
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
   }
-  return write_kigumi_region<K, FaceData>(ofs, region);
+  if (!write_kigumi_region<K, FaceData>(ofs, region)) {
+    return false;
+  }
+  ofs.close();
+  return ofs.good();
 }
 
 }  // namespace kigumi
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 5b23abb..d5f6e55 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -140,7 +140,11 @@ bool write_obj(const std::string& filename, const Triangle_soup<K, FaceData>& so
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
   }
-  return write_obj<K, FaceData>(ofs, soup);
+  if (!write_obj<K, FaceData>(ofs, soup)) {
+    return false;
+  }
+  ofs.close();
+  return ofs.good();
 }
 
 }  // namespace kigumi::io
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 12525a0..d3489bd 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -220,7 +220,11 @@ bool write_off(const std::string& filename, const Triangle_soup<K, FaceData>& so
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
   }
-  return write_off<K, FaceData>(ofs, soup);
+  if (!write_off<K, FaceData>(ofs, soup)) {
+    return false;
+  }
+  ofs.close();
+  return ofs.good();
 }
 
 }  // namespace kigumi::io
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index f10563c..015ac0b 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -331,7 +331,11 @@ bool write_ply(const std::string& filename, const Triangle_soup<K, FaceData>& so
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
   }
-  return write_ply<K, FaceData>(ofs, soup);
+  if (!write_ply<K, FaceData>(ofs, soup)) {
+    return false;
+  }
+  ofs.close();
+  return ofs.good();
 }
 
 }  // namespace kigumi::io
-- 
2.43.0


From f93847acdb8bff8489065df299a87c0a302b422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 14/26] fix: do not accept an OBJ file that could not be read
 to its end

---
 include/kigumi/io/obj.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index d5f6e55..b37b8a0 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -87,6 +87,10 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
-- 
2.43.0


From 614e613d0012fe202b13196d6ed35c5177e16a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 15/26] fix: reject meshes with indices out of range, endless
 lists and coordinates that are not finite

---
 include/kigumi/io/ascii.h |  3 ++-
 include/kigumi/io/obj.h   |  9 +++++++++
 include/kigumi/io/off.h   |  7 ++++++-
 include/kigumi/io/ply.h   | 15 ++++++++++++---
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/kigumi/io/ascii.h b/include/kigumi/io/ascii.h
index 1482b3e..75774c5 100644
--- a/include/kigumi/io/ascii.h
+++ b/include/kigumi/io/ascii.h
@@ -4,6 +4,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <string>
@@ -24,7 +25,7 @@ inline std::istream& operator>>(std::istream& in, Double& d) {
   const auto* first = s.front() == '+' ? s.data() + 1 : s.data();
   const auto* last = s.data() + s.size();
   auto [ptr, ec] = fast_float::from_chars(first, last, d.value);
-  if (ptr != last || ec != std::errc{}) {
+  if (ptr != last || ec != std::errc{} || !std::isfinite(d.value)) {
     in.setstate(std::ios::failbit);
   }
 
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index b37b8a0..6726104 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -91,6 +91,15 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  for (auto fi : new_soup.faces()) {
+    for (auto vi : new_soup.face(fi)) {
+      if (vi.idx() >= new_soup.num_vertices()) {
+        std::cerr << "vertex index out of range" << std::endl;
+        return false;
+      }
+    }
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index d3489bd..282f982 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -140,11 +140,16 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         face.clear();
         std::size_t count{};
         iss >> count;
-        for (std::size_t i = 0; i < count; ++i) {
+        for (std::size_t i = 0; iss && i < count; ++i) {
           std::size_t v{};
           iss >> v;
           face.push_back(Vertex_index{v});
         }
+        for (auto v : face) {
+          if (v.idx() >= new_soup.num_vertices()) {
+            iss.setstate(std::ios::failbit);
+          }
+        }
         if (!iss) {
           std::cout << "invalid face line: " << line << std::endl;
           return false;
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 015ac0b..6fa58f0 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -219,7 +219,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; iss && i < count; ++i) {
             iss >> s;
           }
         } else {
@@ -237,7 +237,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         if (it == vertex_index_property_it) {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; iss && i < count; ++i) {
             std::size_t v{};
             iss >> v;
             face.push_back(Vertex_index{v});
@@ -245,7 +245,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; iss && i < count; ++i) {
             iss >> s;
           }
         } else {
@@ -274,6 +274,15 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  for (auto fi : new_soup.faces()) {
+    for (auto vi : new_soup.face(fi)) {
+      if (vi.idx() >= new_soup.num_vertices()) {
+        std::cerr << "vertex index out of range" << std::endl;
+        return false;
+      }
+    }
+  }
+
   soup = std::move(new_soup);
   return true;
 }
-- 
2.43.0


From 8bc6d94a20e7f1e97776bad6799d9d2547e0fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 16/26] fix: reject OBJ faces with unreadable indices instead
 of dropping the rest of the line

---
 include/kigumi/io/obj.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 6726104..1adbcbf 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -6,10 +6,13 @@
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
 
+#include <charconv>
+#include <cstddef>
 #include <fstream>
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <vector>
 
@@ -62,8 +65,16 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
       new_soup.add_vertex({x.value, y.value, z.value});
     } else if (s == "f") {
       face.clear();
-      std::ptrdiff_t v{};
-      while (iss >> v) {
+      while (iss >> s && !s.starts_with('#')) {
+        // Ignore optional texture and normal indices.
+        const auto* first = s.front() == '+' ? s.data() + 1 : s.data();
+        const auto* last = s.data() + s.size();
+        std::ptrdiff_t v{};
+        auto [ptr, ec] = std::from_chars(first, last, v);
+        if (ec != std::errc{} || (ptr != last && *ptr != '/')) {
+          std::cerr << "invalid face line: " << line << std::endl;
+          return false;
+        }
         if (v > 0) {
           face.push_back(Vertex_index{static_cast<std::size_t>(v) - 1});
         } else if (v < 0) {
@@ -72,12 +83,6 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
           std::cerr << "invalid face line: " << line << std::endl;
           return false;
         }
-        // Ignore optional texture and normal indices.
-        auto c = iss.peek();
-        while (!std::isspace(c) && c != std::char_traits<char>::eof()) {
-          iss.ignore();
-          c = iss.peek();
-        }
       }
       if (face.size() >= 3) {
         for (std::size_t i = 0; i < face.size() - 2; ++i) {
-- 
2.43.0


From f4c07f38e27a4900e0300084889c9f65a20bafdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 17/26] fix: write indices in text formats independently of the
 locale

---
 include/kigumi/io/ascii.h | 18 ++++++++++++++++++
 include/kigumi/io/obj.h   |  2 ++
 include/kigumi/io/off.h   |  2 ++
 include/kigumi/io/ply.h   |  2 ++
 4 files changed, 24 insertions(+)

diff --git a/include/kigumi/io/ascii.h b/include/kigumi/io/ascii.h
index 75774c5..74ea2f4 100644
--- a/include/kigumi/io/ascii.h
+++ b/include/kigumi/io/ascii.h
@@ -7,6 +7,7 @@
 #include <cmath>
 #include <iostream>
 #include <limits>
+#include <locale>
 #include <string>
 #include <system_error>
 
@@ -39,6 +40,23 @@ inline std::ostream& operator<<(std::ostream& out, const Double& d) {
   return out;
 }
 
+// Makes a stream write numbers independently of the locale while it lives.
+class Classic_locale {
+ public:
+  explicit Classic_locale(std::ostream& out) : out_{out}, saved_{out.imbue(std::locale::classic())} {}
+
+  ~Classic_locale() { out_.imbue(saved_); }
+
+  Classic_locale(const Classic_locale&) = delete;
+  Classic_locale(Classic_locale&&) = delete;
+  Classic_locale& operator=(const Classic_locale&) = delete;
+  Classic_locale& operator=(Classic_locale&&) = delete;
+
+ private:
+  std::ostream& out_;
+  std::locale saved_;
+};
+
 struct End_of_file {};
 
 inline const End_of_file eof{};
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 1adbcbf..4edfeee 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -127,6 +127,8 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  Classic_locale classic_locale{os};
+
   for (auto vi : soup.vertices()) {
     const auto& p = soup.point(vi);
     p.exact();
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 282f982..d72c034 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -198,6 +198,8 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  Classic_locale classic_locale{os};
+
   os << "OFF\n"  //
      << soup.num_vertices() << ' ' << soup.num_faces() << " 0\n";
 
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 6fa58f0..8965a43 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -305,6 +305,8 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  Classic_locale classic_locale{os};
+
   os << "ply\n"                                           //
      << "format ascii 1.0\n"                              //
      << "element vertex " << soup.num_vertices() << '\n'  //
-- 
2.43.0


From 2ae0c4509320a7b09108a62be633971f6a4c398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 18/26] fix: read zero written with GMP when built with
 Boost.Multiprecision

---
 include/kigumi/io.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index f8f3627..d2a520a 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -133,11 +133,15 @@ struct Read<boost::multiprecision::cpp_rational> {
 
     kigumi_read<std::int32_t>(in, count);
     read_bytes(in, buf, count);
-    import_bits(num, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(num, buf.begin(), buf.end());
+    }
 
     kigumi_read<std::int32_t>(in, count);
     read_bytes(in, buf, count);
-    import_bits(den, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(den, buf.begin(), buf.end());
+    }
 
     if (!in || den == 0) {
       in.setstate(std::ios::failbit);
-- 
2.43.0


From f56ca97ea22b750951f01a9884eb366d2cf3cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 19/26] fix: do not change the locale of streams that meshes
 are written to

---
 include/kigumi/io/ascii.h | 29 ++++++++++++++---------------
 include/kigumi/io/obj.h   | 11 +++++------
 include/kigumi/io/off.h   |  7 +++----
 include/kigumi/io/ply.h   | 19 +++++++++----------
 4 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/include/kigumi/io/ascii.h b/include/kigumi/io/ascii.h
index 74ea2f4..3039ba4 100644
--- a/include/kigumi/io/ascii.h
+++ b/include/kigumi/io/ascii.h
@@ -7,7 +7,6 @@
 #include <cmath>
 #include <iostream>
 #include <limits>
-#include <locale>
 #include <string>
 #include <system_error>
 
@@ -40,22 +39,22 @@ inline std::ostream& operator<<(std::ostream& out, const Double& d) {
   return out;
 }
 
-// Makes a stream write numbers independently of the locale while it lives.
-class Classic_locale {
- public:
-  explicit Classic_locale(std::ostream& out) : out_{out}, saved_{out.imbue(std::locale::classic())} {}
-
-  ~Classic_locale() { out_.imbue(saved_); }
+// Writes integers independently of the locale and the format flags of the stream.
+template <class T>
+struct Integer {
+  T value{};
+};
 
-  Classic_locale(const Classic_locale&) = delete;
-  Classic_locale(Classic_locale&&) = delete;
-  Classic_locale& operator=(const Classic_locale&) = delete;
-  Classic_locale& operator=(Classic_locale&&) = delete;
+template <class T>
+Integer(T) -> Integer<T>;
 
- private:
-  std::ostream& out_;
-  std::locale saved_;
-};
+template <class T>
+std::ostream& operator<<(std::ostream& out, const Integer<T>& i) {
+  std::array<char, 32> buffer;
+  auto [ptr, ec] = std::to_chars(buffer.data(), buffer.data() + buffer.size(), i.value);
+  out.write(buffer.data(), ptr - buffer.data());
+  return out;
+}
 
 struct End_of_file {};
 
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 4edfeee..4bd7432 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -127,8 +127,6 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
-  Classic_locale classic_locale{os};
-
   for (auto vi : soup.vertices()) {
     const auto& p = soup.point(vi);
     p.exact();
@@ -142,11 +140,12 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     const auto& f = soup.face(fi);
     if (Write_obj_context::current().negative_indices()) {
       auto nv = soup.num_vertices();
-      os << "f " << -static_cast<std::ptrdiff_t>(nv - f[0].idx()) << ' '
-         << -static_cast<std::ptrdiff_t>(nv - f[1].idx()) << ' '
-         << -static_cast<std::ptrdiff_t>(nv - f[2].idx()) << '\n';
+      os << "f " << Integer{-static_cast<std::ptrdiff_t>(nv - f[0].idx())} << ' '
+         << Integer{-static_cast<std::ptrdiff_t>(nv - f[1].idx())} << ' '
+         << Integer{-static_cast<std::ptrdiff_t>(nv - f[2].idx())} << '\n';
     } else {
-      os << "f " << f[0].idx() + 1 << ' ' << f[1].idx() + 1 << ' ' << f[2].idx() + 1 << '\n';
+      os << "f " << Integer{f[0].idx() + 1} << ' ' << Integer{f[1].idx() + 1} << ' '
+         << Integer{f[2].idx() + 1} << '\n';
     }
   }
 
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index d72c034..5ef4890 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -198,10 +198,8 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
-  Classic_locale classic_locale{os};
-
   os << "OFF\n"  //
-     << soup.num_vertices() << ' ' << soup.num_faces() << " 0\n";
+     << Integer{soup.num_vertices()} << ' ' << Integer{soup.num_faces()} << " 0\n";
 
   for (auto vi : soup.vertices()) {
     const auto& p = soup.point(vi);
@@ -214,7 +212,8 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
 
   for (auto fi : soup.faces()) {
     const auto& f = soup.face(fi);
-    os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
+    os << "3 " << Integer{f[0].idx()} << ' ' << Integer{f[1].idx()} << ' ' << Integer{f[2].idx()}
+       << '\n';
   }
 
   return os.good();
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 8965a43..56b60af 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -305,15 +305,13 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
-  Classic_locale classic_locale{os};
-
-  os << "ply\n"                                           //
-     << "format ascii 1.0\n"                              //
-     << "element vertex " << soup.num_vertices() << '\n'  //
-     << "property float x\n"                              //
-     << "property float y\n"                              //
-     << "property float z\n"                              //
-     << "element face " << soup.num_faces() << '\n'       //
+  os << "ply\n"                                                    //
+     << "format ascii 1.0\n"                                       //
+     << "element vertex " << Integer{soup.num_vertices()} << '\n'  //
+     << "property float x\n"                                       //
+     << "property float y\n"                                       //
+     << "property float z\n"                                       //
+     << "element face " << Integer{soup.num_faces()} << '\n'       //
      << "property list uchar int vertex_index\n";
 
   os << "end_header\n";
@@ -329,7 +327,8 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
 
   for (auto fi : soup.faces()) {
     const auto& f = soup.face(fi);
-    os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
+    os << "3 " << Integer{f[0].idx()} << ' ' << Integer{f[1].idx()} << ' ' << Integer{f[2].idx()}
+       << '\n';
   }
 
   return os.good();
-- 
2.43.0


From 16c458e9190c9e1aa1b5fcbbdafbb5c76b847674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 20/26] fix: fail if the report of defects cannot be written

---
 cli/defects_command.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/defects_command.cc b/cli/defects_command.cc
index 6aa85e2..f9784ea 100644
--- a/cli/defects_command.cc
+++ b/cli/defects_command.cc
@@ -100,4 +100,8 @@ void Defects_command::operator()(const std::vector<std::string>& args) const {
   if (!overlapping_faces.empty()) {
     std::cout << overlapping_faces.size() << " overlapping faces" << std::endl;
   }
+
+  if (!std::cout) {
+    throw std::runtime_error("writing failed: standard output");
+  }
 }
-- 
2.43.0


From 3195ba27c5f1e5cfe95ab2987f596dfc07195d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 21/26] fix: rethrow an exception if a thread of parallel_do
 cannot be started

---
 include/kigumi/parallel_do.h |  6 ++++--
 include/kigumi/threading.h   | 28 ++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 48c51f2..8cae097 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -34,13 +34,14 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
   std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
+  internal::Thread_joiner joiner{threads};
 
   threads.reserve(num_threads);
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
     threads.emplace_back([&] {
-      auto local_state = state;
-
       try {
+        auto local_state = state;
+
         while (true) {
           auto index = next_index++;
           if (index >= size) {
@@ -95,6 +96,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
   std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
+  internal::Thread_joiner joiner{threads};
 
   threads.reserve(num_threads);
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
diff --git a/include/kigumi/threading.h b/include/kigumi/threading.h
index 6e0a3bd..86a53ff 100644
--- a/include/kigumi/threading.h
+++ b/include/kigumi/threading.h
@@ -4,6 +4,7 @@
 
 #include <algorithm>
 #include <thread>
+#include <vector>
 
 namespace kigumi {
 
@@ -23,4 +24,31 @@ class Threading_options {
 
 using Threading_context = Context<Threading_options>;
 
+namespace internal {
+
+// Joins threads that are still running when a scope is left by an exception, e.g., because not all
+// of the threads could be started.
+class Thread_joiner {
+ public:
+  explicit Thread_joiner(std::vector<std::thread>& threads) : threads_{threads} {}
+
+  ~Thread_joiner() {
+    for (auto& thread : threads_) {
+      if (thread.joinable()) {
+        thread.join();
+      }
+    }
+  }
+
+  Thread_joiner(const Thread_joiner&) = delete;
+  Thread_joiner(Thread_joiner&&) = delete;
+  Thread_joiner& operator=(const Thread_joiner&) = delete;
+  Thread_joiner& operator=(Thread_joiner&&) = delete;
+
+ private:
+  std::vector<std::thread>& threads_;
+};
+
+}  // namespace internal
+
 }  // namespace kigumi
-- 
2.43.0


From 165c908a470d72256b461a73ce7e757b179349fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 22/26] fix: rethrow exceptions of the threads of parallel_sort

---
 include/kigumi/parallel_sort.h | 63 ++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/include/kigumi/parallel_sort.h b/include/kigumi/parallel_sort.h
index 78bd47e..ab37586 100644
--- a/include/kigumi/parallel_sort.h
+++ b/include/kigumi/parallel_sort.h
@@ -3,14 +3,45 @@
 #include <kigumi/threading.h>
 
 #include <algorithm>
+#include <atomic>
 #include <barrier>
+#include <exception>
 #include <functional>
 #include <iterator>
+#include <mutex>
 #include <thread>
 #include <vector>
 
 namespace kigumi {
 
+namespace internal {
+
+// Releases the threads that wait for threads that could not be started.
+class Barrier_dropper {
+ public:
+  Barrier_dropper(std::barrier<>& barrier, std::size_t num_threads)
+      : barrier_{barrier}, num_missing_threads_{num_threads} {}
+
+  ~Barrier_dropper() {
+    for (std::size_t i = 0; i < num_missing_threads_; ++i) {
+      barrier_.arrive_and_drop();
+    }
+  }
+
+  Barrier_dropper(const Barrier_dropper&) = delete;
+  Barrier_dropper(Barrier_dropper&&) = delete;
+  Barrier_dropper& operator=(const Barrier_dropper&) = delete;
+  Barrier_dropper& operator=(Barrier_dropper&&) = delete;
+
+  void thread_started() { --num_missing_threads_; }
+
+ private:
+  std::barrier<>& barrier_;
+  std::size_t num_missing_threads_;
+};
+
+}  // namespace internal
+
 template <class RandomAccessIterator, class Compare>
 void parallel_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
   auto size = static_cast<std::size_t>(std::distance(first, last));
@@ -27,6 +58,25 @@ void parallel_sort(RandomAccessIterator first, RandomAccessIterator last, Compar
   std::vector<RandomAccessIterator> partitions;
   std::vector<std::thread> threads;
   std::barrier barrier(static_cast<std::ptrdiff_t>(num_threads));
+  std::atomic<bool> failed{};
+  std::mutex mutex;
+  std::exception_ptr exception_ptr;
+
+  // Every thread goes through all the rounds even after a failure, so that none waits in vain.
+  auto run = [&](auto work) {
+    if (failed) {
+      return;
+    }
+    try {
+      work();
+    } catch (...) {
+      std::lock_guard lock{mutex};
+      if (!exception_ptr) {
+        exception_ptr = std::current_exception();
+        failed = true;
+      }
+    }
+  };
 
   partitions.reserve(num_threads + 1);
   auto size_per_thread = size / num_threads;
@@ -36,12 +86,14 @@ void parallel_sort(RandomAccessIterator first, RandomAccessIterator last, Compar
   partitions.push_back(last);
 
   threads.reserve(num_threads);
+  internal::Thread_joiner joiner{threads};
+  internal::Barrier_dropper dropper{barrier, num_threads};
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
-    threads.emplace_back([&barrier, &comp, num_threads, &partitions, tid] {
+    threads.emplace_back([&barrier, &comp, num_threads, &partitions, &run, tid] {
       {
         auto first = partitions.at(tid);
         auto last = partitions.at(tid + 1);
-        std::sort(first, last, comp);
+        run([&] { std::sort(first, last, comp); });
       }
 
       std::size_t sorted_distance{1};
@@ -51,16 +103,21 @@ void parallel_sort(RandomAccessIterator first, RandomAccessIterator last, Compar
           auto first = partitions.at(tid);
           auto middle = partitions.at(std::min(tid + sorted_distance, num_threads));
           auto last = partitions.at(std::min(tid + 2 * sorted_distance, num_threads));
-          std::inplace_merge(first, middle, last, comp);
+          run([&] { std::inplace_merge(first, middle, last, comp); });
         }
         sorted_distance *= 2;
       }
     });
+    dropper.thread_started();
   }
 
   for (auto& thread : threads) {
     thread.join();
   }
+
+  if (exception_ptr) {
+    std::rethrow_exception(exception_ptr);
+  }
 }
 
 template <class RandomAccessIterator>
-- 
2.43.0


From 1ac7d123d76cf4880efb2b1fad6de3ccd2325c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 23/26] fix: rethrow exceptions of the threads that build AABB
 trees

---
 include/kigumi/AABB_tree/AABB_tree.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/kigumi/AABB_tree/AABB_tree.h b/include/kigumi/AABB_tree/AABB_tree.h
index 171a058..fe5fcc6 100644
--- a/include/kigumi/AABB_tree/AABB_tree.h
+++ b/include/kigumi/AABB_tree/AABB_tree.h
@@ -8,8 +8,8 @@
 #include <algorithm>
 #include <array>
 #include <cmath>
+#include <future>
 #include <iterator>
-#include <thread>
 #include <utility>
 #include <vector>
 
@@ -107,12 +107,16 @@ class AABB_tree {
         node_it->set_right_node(&*right_node_it);
 
         if (node_depth < concurrency_depth_limit_) {
-          std::thread left_thread(&AABB_tree::build<RandomAccessIterator>, this, left_node_it,
-                                  first, middle, node_depth + 1);
-          std::thread right_thread(&AABB_tree::build<RandomAccessIterator>, this, right_node_it,
-                                   middle, last, node_depth + 1);
-          left_thread.join();
-          right_thread.join();
+          // Unlike `std::thread`, a future passes on exceptions and waits for the thread when the
+          // scope is left by an exception.
+          auto left_future =
+              std::async(std::launch::async, &AABB_tree::build<RandomAccessIterator>, this,
+                         left_node_it, first, middle, node_depth + 1);
+          auto right_future =
+              std::async(std::launch::async, &AABB_tree::build<RandomAccessIterator>, this,
+                         right_node_it, middle, last, node_depth + 1);
+          left_future.get();
+          right_future.get();
         } else {
           build(left_node_it, first, middle, node_depth + 1);
           build(right_node_it, middle, last, node_depth + 1);
-- 
2.43.0


From 8e1f17b2b3a80fbb157e2919e53f121f533bc0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 24/26] fix: let allocation failures during the hashing of
 points be caught

---
 include/kigumi/Point_list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kigumi/Point_list.h b/include/kigumi/Point_list.h
index 5efcd55..aa955ba 100644
--- a/include/kigumi/Point_list.h
+++ b/include/kigumi/Point_list.h
@@ -9,7 +9,7 @@ namespace kigumi {
 
 template <class K>
 struct Point_3_hash {
-  std::size_t operator()(const typename K::Point_3& p) const noexcept {
+  std::size_t operator()(const typename K::Point_3& p) const {
     if (!p.approx().x().is_point() || !p.approx().y().is_point() || !p.approx().z().is_point()) {
       p.exact();
     }
-- 
2.43.0


From 988a4a068061330a655b095889b66d6c52c2fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 25/26] fix: drop faces left to visit by a failed propagation
 of face tags

---
 include/kigumi/Propagate_face_tags.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kigumi/Propagate_face_tags.h b/include/kigumi/Propagate_face_tags.h
index 4a1dad6..f18587d 100644
--- a/include/kigumi/Propagate_face_tags.h
+++ b/include/kigumi/Propagate_face_tags.h
@@ -22,6 +22,8 @@ class Propagate_face_tags {
 
     Warnings warnings{};
 
+    // An earlier call may have been left by an exception.
+    queue_ = {};
     queue_.push(seed);
     while (!queue_.empty()) {
       auto fi = queue_.front();
-- 
2.43.0


From edffdd440a846209f3a8e8b3a788d85e7b23a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 26/26] fix: leave meshes as they were if adding a face or
 assigning fails

---
 include/kigumi/Triangle_mesh.h | 8 ++------
 include/kigumi/Triangle_soup.h | 7 ++-----
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/kigumi/Triangle_mesh.h b/include/kigumi/Triangle_mesh.h
index 174f615..cdf8718 100644
--- a/include/kigumi/Triangle_mesh.h
+++ b/include/kigumi/Triangle_mesh.h
@@ -69,11 +69,7 @@ class Triangle_mesh {
 
   Triangle_mesh& operator=(const Triangle_mesh& other) {
     if (this != &other) {
-      points_ = other.points_;
-      faces_ = other.faces_;
-      face_data_ = other.face_data_;
-      indices_ = other.indices_;
-      face_indices_ = other.face_indices_;
+      *this = Triangle_mesh{other};
     }
     return *this;
   }
@@ -96,8 +92,8 @@ class Triangle_mesh {
   }
 
   Face_index add_face(const Face& face) {
+    face_data_.resize(faces_.size() + 1);
     faces_.push_back(face);
-    face_data_.emplace_back();
     return Face_index{faces_.size() - 1};
   }
 
diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 5b567fc..bd84d9a 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -58,10 +58,7 @@ class Triangle_soup {
 
   Triangle_soup& operator=(const Triangle_soup& other) {
     if (this != &other) {
-      points_ = other.points_;
-      faces_ = other.faces_;
-      face_data_ = other.face_data_;
-      aabb_tree_.reset();
+      *this = Triangle_soup{other};
     }
     return *this;
   }
@@ -83,8 +80,8 @@ class Triangle_soup {
   }
 
   Face_index add_face(const Face& face) {
+    face_data_.resize(faces_.size() + 1);
     faces_.push_back(face);
-    face_data_.emplace_back();
     aabb_tree_.reset();
     return Face_index{faces_.size() - 1};
   }
-- 
2.43.0

