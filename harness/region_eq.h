// Equality of regions: with the same triangles, or failing that, as sets with data.
#pragma once

#include "bool_checks.h"

inline bool less_xyz(const P& a, const P& b) { return CGAL::compare_xyz(a, b) == CGAL::SMALLER; }

// Whether both meshes have the same vertices, faces and payloads, in the same order.
inline std::string same_mesh(const Mesh& a, const Mesh& b) {
  if (a.v.size() != b.v.size()) return fmt("%zu vertices became %zu", a.v.size(), b.v.size());
  if (a.f.size() != b.f.size()) return fmt("%zu faces became %zu", a.f.size(), b.f.size());
  for (std::size_t i = 0; i < a.v.size(); ++i)
    if (a.v[i] != b.v[i]) return fmt("vertex %zu changed", i);
  for (std::size_t i = 0; i < a.f.size(); ++i) {
    if (a.f[i] != b.f[i]) return fmt("face %zu changed", i);
    int ia = i < a.id.size() ? a.id[i] : -1;
    int ib = i < b.id.size() ? b.id[i] : -1;
    if (ia != ib) return fmt("the data of face %zu changed from %d to %d", i, ia, ib);
  }
  return {};
}

struct Canonical {
  std::vector<std::size_t> rank;                          // of the vertices
  std::vector<std::array<std::size_t, 4>> faces;          // ranks, smallest first, and the payload
  std::vector<P> points;                                  // in order
};

inline Canonical canonical(const Mesh& m) {
  Canonical c;
  std::vector<std::size_t> order(m.v.size());
  std::iota(order.begin(), order.end(), 0);
  std::sort(order.begin(), order.end(), [&](auto a, auto b) { return less_xyz(m.v[a], m.v[b]); });
  c.rank.resize(m.v.size());
  for (std::size_t i = 0; i < order.size(); ++i) {
    c.rank[order[i]] = i;
    c.points.push_back(m.v[order[i]]);
  }
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    std::array<std::size_t, 3> t{c.rank[m.f[i][0]], c.rank[m.f[i][1]], c.rank[m.f[i][2]]};
    std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
    c.faces.push_back({t[0], t[1], t[2], static_cast<std::size_t>(i < m.id.size() ? m.id[i] : -1)});
  }
  std::sort(c.faces.begin(), c.faces.end());
  return c;
}

inline bool same_triangles(const Mesh& a, const Mesh& b) {
  if (a.v.size() != b.v.size() || a.f.size() != b.f.size()) return false;
  auto ca = canonical(a);
  auto cb = canonical(b);
  return ca.faces == cb.faces && ca.points == cb.points;
}

inline V3 area_vector(const Mesh& m, std::size_t i) {
  const auto& t = m.f[i];
  return CGAL::cross_product(m.v[t[1]] - m.v[t[0]], m.v[t[2]] - m.v[t[0]]);
}

// Every sampled point of a's faces is on a face of b with the same payload and orientation, and the
// areas carrying each payload are the same.
inline std::string same_boundary(const Mesh& a, const Mesh& b, Rng& rng) {
  std::map<int, V3> area;
  for (std::size_t i = 0; i < a.f.size(); ++i) {
    auto [it, inserted] = area.emplace(a.id[i], V3{0, 0, 0});
    it->second = it->second + area_vector(a, i);
  }
  for (std::size_t i = 0; i < b.f.size(); ++i) {
    auto [it, inserted] = area.emplace(b.id[i], V3{0, 0, 0});
    it->second = it->second - area_vector(b, i);
  }
  for (auto& [id, v] : area)
    if (v != V3{0, 0, 0}) return fmt("the area with the data %d differs", id);
  for (int swap = 0; swap < 2; ++swap) {
    const auto& x = swap ? b : a;
    const auto& y = swap ? a : b;
    Boxes by{y};
    for (int n = 0; n < 60; ++n) {
      auto i = rng.below(x.f.size());
      const auto& t = x.f[i];
      auto q = CGAL::barycenter(x.v[t[0]], FT(rng.range(1, 999)), x.v[t[1]], FT(rng.range(1, 999)), x.v[t[2]],
                                FT(rng.range(1, 999)));
      bool found = false;
      auto qb = q.bbox();
      for (std::size_t j = 0; j < y.f.size() && !found; ++j)
        found = CGAL::do_overlap(by.b[j], qb) && y.id[j] == x.id[i] && in_face(y, j, q) &&
                area_vector(y, j) * area_vector(x, i) > 0;
      if (!found) return fmt("%s is on a face with the data %d in one of them only", point_text(q).c_str(), x.id[i]);
    }
  }
  return {};
}

struct Outcome {
  enum Kind { EMPTY, FULL, BOUNDARY, BROKEN } kind{BROKEN};
  Mesh m;
  int warnings{0};
};

inline const char* kind_name(Outcome::Kind k) {
  return k == Outcome::EMPTY ? "empty" : k == Outcome::FULL ? "full" : k == Outcome::BOUNDARY ? "bounded" : "broken";
}

inline Outcome outcome_of(const Region& r, int warnings = 0) {
  Outcome o;
  o.warnings = warnings;
  o.kind = r.is_empty() ? Outcome::EMPTY : r.is_full() ? Outcome::FULL : Outcome::BOUNDARY;
  if (!from_soup(r.boundary(), o.m) || (o.kind != Outcome::BOUNDARY) != o.m.f.empty()) o.kind = Outcome::BROKEN;
  return o;
}

// Returns an empty string, or how the outcomes differ.
inline std::string same_outcome(const Outcome& a, const Outcome& b, Rng& rng) {
  if (a.kind != b.kind) return std::string{"one is "} + kind_name(a.kind) + ", the other " + kind_name(b.kind);
  if (a.warnings != b.warnings) return fmt("warnings %d and %d", a.warnings, b.warnings);
  if (a.kind == Outcome::BROKEN) return "the result is broken";
  if (a.kind != Outcome::BOUNDARY) return {};
  if (same_triangles(a.m, b.m)) {
    rep().count("same_triangles");
    return {};
  }
  rep().count("same_sets_other_triangles");
  return same_boundary(a.m, b.m, rng);
}

// Six times the signed volume enclosed by the mesh.
inline FT volume6(const Mesh& m) {
  FT s{0};
  P o{0, 0, 0};
  for (const auto& t : m.f) s += CGAL::determinant(m.v[t[0]] - o, m.v[t[1]] - o, m.v[t[2]] - o);
  return s;
}
