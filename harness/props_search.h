// C16: Searches of the tree of boxes, and pairs of faces that may intersect.
#pragma once

#include "hooks.h"
#include "props_bool.h"
#include "tri_oracle.h"

#include <kigumi/AABB_tree/AABB_tree.h>
#include <kigumi/Find_possibly_intersecting_faces.h>

#include <cfloat>
#include <cmath>
#include <utility>

struct Box_leaf : kigumi::AABB_leaf {
  std::size_t id;
  Box_leaf(const CGAL::Bbox_3& b, std::size_t i) : AABB_leaf{b}, id{i} {}
};

inline double box_coord(Rng& rng, int style) {
  switch (style) {
    case 0: return rng.range(0, 6);
    case 1: return rng.real(-1, 1);
    case 2: return std::ldexp(rng.real(-1, 1), rng.range(-300, 300));
    case 3: return rng.chance(0.5) ? 0 : rng.range(-2, 2) * 1e10;
    default: {  // bounds of coordinates that are not representable
      const double v[] = {-INFINITY, -DBL_MAX, -1, 0, 1, DBL_MAX, INFINITY};
      return v[rng.below(7)];
    }
  }
}

inline Bbox random_box(Rng& rng, int style) {
  double lo[3];
  double hi[3];
  for (int a = 0; a < 3; ++a) {
    lo[a] = box_coord(rng, style);
    hi[a] = rng.chance(0.2) ? lo[a] : style == 1 ? lo[a] + rng.real(0, 0.3) : box_coord(rng, style);
    if (lo[a] > hi[a]) std::swap(lo[a], hi[a]);
  }
  return {lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]};
}

inline P box_corner(const Bbox& b, Rng& rng) {
  double c[3];
  for (int a = 0; a < 3; ++a) c[a] = rng.chance(0.4) ? b.min(a) : rng.chance(0.6) ? b.max(a) : b.min(a) / 2 + b.max(a) / 2;
  return {c[0], c[1], c[2]};
}

template <class Query>
std::string check_search(const kigumi::AABB_tree<Box_leaf>& tree, const std::vector<Bbox>& boxes, const Query& query, const char* kind) {
  std::vector<const Box_leaf*> got;
  tree.get_intersecting_leaves(std::back_inserter(got), query);
  std::vector<int> times(boxes.size(), 0);
  for (auto* l : got) {
    if (l->id >= boxes.size() || l->bbox() != boxes[l->id]) return fmt("%s: a leaf was damaged", kind);
    ++times[l->id];
  }
  long hits = 0;
  for (std::size_t i = 0; i < boxes.size(); ++i) {
    bool want = CGAL::do_intersect(boxes[i], query);
    hits += want;
    if (times[i] > 1) return fmt("%s: box %zu of %zu is reported %d times", kind, i, boxes.size(), times[i]);
    if (want && times[i] == 0) return fmt("%s: box %zu of %zu is not reported", kind, i, boxes.size());
    if (!want && times[i] != 0) return fmt("%s: box %zu of %zu is reported though it is not met", kind, i, boxes.size());
  }
  rep().count(std::string{"searches."} + kind);
  rep().count("boxes_met", hits);
  return {};
}

inline void case_search(Case_ctx& c) {
  auto& rng = c.rng;
  hk::nprocs = 8;
  auto nt = random_threads(rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  const int few[] = {0, 1, 2, 3, 4, 5, 6, 7};
  auto n = static_cast<std::size_t>(rng.chance(0.4) ? few[rng.below(8)] : rng.range(8, rng.chance(0.1) ? 1500 : 120));
  int style = rng.chance(0.1) ? 4 : rng.range(0, 3);
  std::vector<Bbox> boxes;
  for (std::size_t i = 0; i < n; ++i)
    boxes.push_back(!boxes.empty() && rng.chance(0.15) ? rng.pick(boxes) : random_box(rng, style));
  if (rng.chance(0.1)) boxes.assign(n, random_box(rng, style));
  c.sig = mix64(n, rng.next());
  std::vector<Box_leaf> leaves;
  for (std::size_t i = 0; i < n; ++i) leaves.emplace_back(boxes[i], i);
  hk::begin(rng.next(), true);
  kigumi::AABB_tree<Box_leaf> tree{std::move(leaves)};
  hk::end();
  rep().count("trees");
  rep().distinct("tree_sizes", n);
  std::string e;
  auto some_point = [&]() -> P {
    return !boxes.empty() && rng.chance(0.6) ? box_corner(rng.pick(boxes), rng) : P{box_coord(rng, style), box_coord(rng, style), box_coord(rng, style)};
  };
  for (int i = 0; i < 6 && e.empty(); ++i) {
    e = check_search(tree, boxes, !boxes.empty() && rng.chance(0.3) ? rng.pick(boxes) : random_box(rng, style), "box");
    if (style == 4) continue;
    auto p = some_point();
    auto q = some_point();
    if (p == q) continue;
    if (e.empty()) e = check_search(tree, boxes, K::Segment_3{p, q}, "segment");
    if (e.empty()) e = check_search(tree, boxes, K::Ray_3{p, q}, "ray");
    auto r = some_point();
    if (CGAL::collinear(p, q, r)) continue;
    if (e.empty()) e = check_search(tree, boxes, K::Triangle_3{p, q, r}, "triangle");
    if (e.empty()) e = check_search(tree, boxes, K::Plane_3{p, q, r}, "plane");
  }
  if (!e.empty()) {
    rep().violation("search", e);
    return;
  }
  // Pairs of faces.
  Gen_options o;
  o.large = 0.01;
  auto p = gen_pair(rng, o);
  note_pair(c, p);
  auto left = to_soup(p.a.m);
  auto right = to_soup(p.b.m);
  std::vector<kigumi::Face_tag> lt(left.num_faces());
  std::vector<kigumi::Face_tag> rt(right.num_faces());
  bool tagged = rng.chance(0.3);
  if (tagged) {
    for (auto& t : lt) t = rng.chance(0.2) ? kigumi::Face_tag::COPLANAR : kigumi::Face_tag::UNKNOWN;
    for (auto& t : rt) t = rng.chance(0.2) ? kigumi::Face_tag::OPPOSITE : kigumi::Face_tag::UNKNOWN;
  }
  auto pairs = kigumi::Find_possibly_intersecting_faces<K, FD>{}(left, right, lt, rt);
  std::set<std::pair<std::size_t, std::size_t>> got;
  for (auto [x, y] : pairs) {
    if (x.idx() >= lt.size() || y.idx() >= rt.size()) e = "a face of a pair is out of range";
    if (!got.emplace(x.idx(), y.idx()).second) e = fmt("the pair (%zu, %zu) is reported twice", x.idx(), y.idx());
  }
  Boxes ba{p.a.m};
  Boxes bb{p.b.m};
  long met = 0;
  for (std::size_t i = 0; i < lt.size() && e.empty(); ++i)
    for (std::size_t j = 0; j < rt.size() && e.empty(); ++j) {
      if (!CGAL::do_overlap(ba.b[i], bb.b[j])) continue;
      if (lt[i] != kigumi::Face_tag::UNKNOWN || rt[j] != kigumi::Face_tag::UNKNOWN) continue;
      if (got.contains({i, j})) continue;
      ++met;
      if (!intersect_triangles(tri_of(p.a.m, i), tri_of(p.b.m, j)).empty())
        e = fmt("faces %zu and %zu intersect but are not reported", i, j);
    }
  rep().count("pairs_reported", static_cast<long>(got.size()));
  rep().count("pairs_with_boxes_met_not_reported", met);
  if (!e.empty()) {
    rep().violation("pairs", e + ": " + pair_text(p));
    return;
  }
  c.nontrivial = true;
}
