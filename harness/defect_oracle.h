// What defects a mesh has, by definition and by trying all pairs.
#pragma once

#include "tri_oracle.h"

struct Defect_truth {
  Mesh m;                                         // with merged vertices
  std::set<std::size_t> isolated, bad_vertices;   // vertices
  std::set<std::array<std::size_t, 2>> boundary, inconsistent, non_manifold;
  std::set<std::size_t> trivial, flat;            // faces
  std::set<std::array<std::size_t, 2>> overlaps;  // pairs of faces
};

// Vertices with equal coordinates become one, in the order in which they first appear.
inline Mesh merged_vertices(const Mesh& m) {
  Mesh r;
  std::vector<std::size_t> order(m.v.size());
  std::iota(order.begin(), order.end(), 0);
  auto less = [&](std::size_t a, std::size_t b) { return CGAL::compare_xyz(m.v[a], m.v[b]) == CGAL::SMALLER; };
  std::stable_sort(order.begin(), order.end(), less);
  std::vector<std::size_t> first(m.v.size());
  for (std::size_t i = 0; i < order.size(); ++i)
    first[order[i]] = i > 0 && !less(order[i - 1], order[i]) ? first[order[i - 1]] : order[i];
  std::vector<std::size_t> to(m.v.size());
  for (std::size_t i = 0; i < m.v.size(); ++i) {
    if (first[i] == i) {
      to[i] = r.v.size();
      r.v.push_back(m.v[i]);
    } else {
      to[i] = to[first[i]];
    }
  }
  for (const auto& t : m.f) r.f.push_back({to[t[0]], to[t[1]], to[t[2]]});
  return r;
}

inline bool repeats(const std::array<std::size_t, 3>& t) { return t[0] == t[1] || t[1] == t[2] || t[2] == t[0]; }

// Whether the faces around a vertex form one fan, open or closed, in which no two faces share two edges.
inline bool one_fan(const Mesh& m, const std::vector<std::size_t>& around, std::size_t v) {
  std::vector<std::array<std::size_t, 2>> spans;
  for (auto f : around) {
    std::array<std::size_t, 2> s{};
    std::size_t n = 0;
    for (auto x : m.f[f])
      if (x != v) s[n++] = x;
    if (s[0] > s[1]) std::swap(s[0], s[1]);
    spans.push_back(s);
  }
  for (std::size_t i = 0; i < spans.size(); ++i)
    for (std::size_t j = 0; j < i; ++j)
      if (spans[i] == spans[j]) return false;
  std::map<std::size_t, int> uses;
  for (auto& s : spans)
    for (auto x : s)
      if (++uses[x] > 2) return false;
  // Walk from face to face over common edges.
  std::vector<bool> seen(spans.size(), false);
  std::vector<std::size_t> todo{0};
  seen[0] = true;
  while (!todo.empty()) {
    auto i = todo.back();
    todo.pop_back();
    for (std::size_t j = 0; j < spans.size(); ++j) {
      if (seen[j]) continue;
      if (spans[i][0] == spans[j][0] || spans[i][0] == spans[j][1] || spans[i][1] == spans[j][0] || spans[i][1] == spans[j][1]) {
        seen[j] = true;
        todo.push_back(j);
      }
    }
  }
  return std::find(seen.begin(), seen.end(), false) == seen.end();
}

inline Defect_truth find_defects_by_definition(const Mesh& input, bool with_overlaps = true) {
  Defect_truth r;
  r.m = merged_vertices(input);
  const auto& m = r.m;
  std::vector<std::vector<std::size_t>> around(m.v.size());
  std::vector<bool> used(m.v.size(), false);
  std::map<std::array<std::size_t, 2>, std::array<int, 2>> edges;  // uses from the smaller vertex, from the larger one
  std::vector<T3> tri;
  std::vector<bool> sound;
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    const auto& t = m.f[i];
    for (auto x : t) used[x] = true;
    tri.push_back(tri_of(m, i));
    sound.push_back(false);
    if (repeats(t)) {
      r.trivial.insert(i);
      continue;
    }
    if (degenerate(tri[i])) {
      r.flat.insert(i);
    } else {
      sound[i] = true;
    }
    for (std::size_t k = 0; k < 3; ++k) {
      around[t[k]].push_back(i);
      auto a = t[k], b = t[(k + 1) % 3];
      ++edges[{std::min(a, b), std::max(a, b)}][a < b ? 0 : 1];
    }
  }
  for (std::size_t v = 0; v < m.v.size(); ++v) {
    if (!used[v]) r.isolated.insert(v);
    if (!around[v].empty() && !one_fan(m, around[v], v)) r.bad_vertices.insert(v);
  }
  for (auto& [e, n] : edges) {
    if (n[0] + n[1] == 1) r.boundary.insert(e);
    if (n[0] + n[1] == 2 && n[0] != 1) r.inconsistent.insert(e);
    if (n[0] + n[1] > 2) r.non_manifold.insert(e);
  }
  if (!with_overlaps) return r;
  Boxes boxes{m};
  for (std::size_t i = 0; i < m.f.size(); ++i)
    for (std::size_t j = 0; j < i; ++j) {
      if (!sound[i] || !sound[j] || !CGAL::do_overlap(boxes.b[i], boxes.b[j])) continue;
      std::size_t shared = 0;
      for (auto x : m.f[i])
        for (auto y : m.f[j]) shared += x == y;
      // Beyond their common vertices and the edge between them?
      auto c = intersect_triangles(tri[i], tri[j]);
      bool more = c.size() >= 3 || c.size() > shared;
      if (more) r.overlaps.insert({j, i});
    }
  return r;
}
