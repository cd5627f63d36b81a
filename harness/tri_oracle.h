// The intersection of two triangles, in rational arithmetic and without the library or the kernel.
#pragma once

#include "mesh.h"

#include <CGAL/Exact_rational.h>

using Rat = CGAL::Exact_rational;

struct Q3 {
  Rat c[3];
  bool operator==(const Q3& o) const { return c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2]; }
};

inline Q3 q3(const P& p) { return {{Rat(CGAL::exact(p.x())), Rat(CGAL::exact(p.y())), Rat(CGAL::exact(p.z()))}}; }

inline Q3 operator-(const Q3& a, const Q3& b) { return {{a.c[0] - b.c[0], a.c[1] - b.c[1], a.c[2] - b.c[2]}}; }
inline Rat dot(const Q3& a, const Q3& b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2]; }
inline Q3 cross(const Q3& a, const Q3& b) {
  return {{a.c[1] * b.c[2] - a.c[2] * b.c[1], a.c[2] * b.c[0] - a.c[0] * b.c[2], a.c[0] * b.c[1] - a.c[1] * b.c[0]}};
}
inline bool zero(const Q3& a) { return a.c[0] == 0 && a.c[1] == 0 && a.c[2] == 0; }
inline Q3 lerp(const Q3& a, const Q3& b, const Rat& t) {
  Q3 r;
  for (int i = 0; i < 3; ++i) r.c[i] = a.c[i] + (b.c[i] - a.c[i]) * t;
  return r;
}

using T3 = std::array<Q3, 3>;

inline Q3 normal(const T3& t) { return cross(t[1] - t[0], t[2] - t[0]); }
inline bool degenerate(const T3& t) { return zero(normal(t)); }

inline void add_unique(std::vector<Q3>& v, const Q3& p) {
  if (std::find(v.begin(), v.end(), p) == v.end()) v.push_back(p);
}

// Where a triangle meets a plane it is not in.
inline std::vector<Q3> section(const T3& t, const Q3& n, const Q3& o) {
  Rat s[3];
  for (int i = 0; i < 3; ++i) s[i] = dot(n, t[static_cast<std::size_t>(i)] - o);
  std::vector<Q3> r;
  for (int i = 0; i < 3; ++i) {
    int j = (i + 1) % 3;
    if (s[i] == 0) add_unique(r, t[static_cast<std::size_t>(i)]);
    if ((s[i] > 0 && s[j] < 0) || (s[i] < 0 && s[j] > 0))
      add_unique(r, lerp(t[static_cast<std::size_t>(i)], t[static_cast<std::size_t>(j)], s[i] / (s[i] - s[j])));
  }
  return r;
}

// The corners of the intersection, in cyclic order if there are three or more. Neither may be degenerate.
inline std::vector<Q3> intersect_triangles(const T3& a, const T3& b) {
  auto na = normal(a);
  auto nb = normal(b);
  auto d = cross(na, nb);
  if (zero(d)) {
    if (dot(na, b[0] - a[0]) != 0) return {};
    // Clip a by the lines of b's edges, in their plane.
    std::vector<Q3> poly(a.begin(), a.end());
    for (std::size_t e = 0; e < 3 && !poly.empty(); ++e) {
      auto in = cross(nb, b[(e + 1) % 3] - b[e]);  // points into b
      std::vector<Q3> next;
      auto n = poly.size();
      for (std::size_t i = 0; i < n; ++i) {
        const auto& p = poly[i];
        const auto& q = poly[(i + 1) % n];
        Rat sp = dot(in, p - b[e]);
        Rat sq = dot(in, q - b[e]);
        if (sp >= 0) next.push_back(p);
        if ((sp > 0 && sq < 0) || (sp < 0 && sq > 0)) next.push_back(lerp(p, q, sp / (sp - sq)));
      }
      poly.clear();
      for (auto& p : next) add_unique(poly, p);
    }
    return poly;
  }
  auto sa = section(a, nb, b[0]);
  auto sb = section(b, na, a[0]);
  if (sa.empty() || sb.empty()) return {};
  auto less = [&](const Q3& x, const Q3& y) { return dot(d, x) < dot(d, y); };
  auto [alo, ahi] = std::minmax_element(sa.begin(), sa.end(), less);
  auto [blo, bhi] = std::minmax_element(sb.begin(), sb.end(), less);
  Q3 lo = less(*alo, *blo) ? *blo : *alo;
  Q3 hi = less(*ahi, *bhi) ? *ahi : *bhi;
  if (less(hi, lo)) return {};
  if (lo == hi) return {lo};
  return {lo, hi};
}

// Which part of the triangle, known to contain p, has p in its relative interior: a bit per vertex.
inline int part_of(const T3& t, const Q3& p) {
  for (int i = 0; i < 3; ++i)
    if (t[static_cast<std::size_t>(i)] == p) return 1 << i;
  for (int i = 0; i < 3; ++i) {
    const auto& x = t[static_cast<std::size_t>(i)];
    const auto& y = t[static_cast<std::size_t>((i + 1) % 3)];
    if (zero(cross(y - x, p - x))) return (1 << i) | (1 << (i + 1) % 3);
  }
  return 7;
}

inline T3 tri_of(const Mesh& m, std::size_t f) { return {q3(m.v[m.f[f][0]]), q3(m.v[m.f[f][1]]), q3(m.v[m.f[f][2]])}; }
