// Plain meshes, and exact oracles over them that share no code with the library under test: membership
// by signed crossing counts, validity by pairwise triangle tests, edge balance.
#pragma once

#include "common.h"

#include <CGAL/intersections.h>

#include <algorithm>
#include <numeric>
#include <optional>

struct Mesh {
  std::vector<P> v;
  std::vector<std::array<std::size_t, 3>> f;
  std::vector<int> id;  // face payloads
  static constexpr int DAMAGED = -2;

  void add(std::size_t a, std::size_t b, std::size_t c) { f.push_back({a, b, c}); }
};

inline Mesh flipped(Mesh m) {
  for (auto& t : m.f) std::swap(t[1], t[2]);
  return m;
}

inline Mesh merged(const Mesh& a, const Mesh& b) {
  Mesh m = a;
  auto n = m.v.size();
  m.v.insert(m.v.end(), b.v.begin(), b.v.end());
  for (auto t : b.f) m.f.push_back({t[0] + n, t[1] + n, t[2] + n});
  return m;
}

inline void set_ids(Mesh& m, int base) {
  m.id.resize(m.f.size());
  for (std::size_t i = 0; i < m.f.size(); ++i) m.id[i] = base + static_cast<int>(i);
}

// Permute vertices, permute faces, rotate faces.
inline void scramble(Mesh& m, Rng& rng) {
  std::vector<std::size_t> perm(m.v.size());
  std::iota(perm.begin(), perm.end(), 0);
  rng.shuffle(perm);
  std::vector<P> v(m.v.size());
  for (std::size_t i = 0; i < perm.size(); ++i) v[perm[i]] = m.v[i];
  m.v = std::move(v);
  for (auto& t : m.f) {
    for (auto& x : t) x = perm[x];
    std::rotate(t.begin(), t.begin() + rng.range(0, 2), t.end());
  }
  rng.shuffle(m.f);
}

inline Soup to_soup(const Mesh& m) {
  Soup s;
  for (const auto& p : m.v) s.add_vertex(p);
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    const auto& t = m.f[i];
    auto fi = s.add_face({Vertex_index{t[0]}, Vertex_index{t[1]}, Vertex_index{t[2]}});
    if (i < m.id.size()) s.data(fi) = FD{m.id[i]};
  }
  return s;
}

inline Region to_region(const Mesh& m) { return Region{to_soup(m)}; }

// Returns false if an index is out of range (the mesh is left unusable then).
inline bool from_soup(const Soup& s, Mesh& m) {
  m = {};
  for (auto vi : s.vertices()) m.v.push_back(s.point(vi));
  for (auto fi : s.faces()) {
    const auto& t = s.face(fi);
    for (int k = 0; k < 3; ++k)
      if (t[k].idx() >= m.v.size()) return false;
    m.f.push_back({t[0].idx(), t[1].idx(), t[2].idx()});
    const auto& d = s.data(fi);
    m.id.push_back(d.intact() ? d.id : Mesh::DAMAGED);
  }
  return true;
}

struct Boxes {
  std::vector<Bbox> b;
  Bbox all;
  explicit Boxes(const Mesh& m) {
    for (const auto& t : m.f) {
      b.push_back(m.v[t[0]].bbox() + m.v[t[1]].bbox() + m.v[t[2]].bbox());
      all += b.back();
    }
  }
  Boxes() = default;
};

enum class Loc { IN, OUT, ON };

// Whether p, known to be in the plane of the triangle, is in the closed triangle.
inline bool coplanar_in_triangle(const P& a, const P& b, const P& c, const P& p) {
  auto o1 = CGAL::coplanar_orientation(a, b, c, p);  // same side of ab as c
  auto o2 = CGAL::coplanar_orientation(b, c, a, p);
  auto o3 = CGAL::coplanar_orientation(c, a, b, p);
  return o1 != CGAL::NEGATIVE && o2 != CGAL::NEGATIVE && o3 != CGAL::NEGATIVE;
}

// A region: nothing, everything, or bounded by a mesh; with a membership oracle.
class Solid {
 public:
  enum Kind { EMPTY, FULL, CLOSED, OPEN } kind{EMPTY};
  Mesh m;
  Boxes boxes;
  bool outer{false};  // CLOSED: the point at infinity belongs to the region
  bool bad{false};    // the mesh bounds no region

  Solid() = default;

  static Solid special(bool full) {
    Solid s;
    s.kind = full ? FULL : EMPTY;
    return s;
  }

  static Solid closed(Mesh mesh) {
    Solid s;
    s.kind = CLOSED;
    s.m = std::move(mesh);
    s.boxes = Boxes{s.m};
    s.find_outer();
    return s;
  }

  static Solid open(Mesh mesh) {
    Solid s;
    s.kind = OPEN;
    s.m = std::move(mesh);
    s.boxes = Boxes{s.m};
    return s;
  }

  bool on_boundary(const P& p) const {
    if (kind == EMPTY || kind == FULL) return false;
    auto pb = p.bbox();
    for (std::size_t i = 0; i < m.f.size(); ++i) {
      if (!CGAL::do_overlap(boxes.b[i], pb)) continue;
      const auto& t = m.f[i];
      const auto &a = m.v[t[0]], &b = m.v[t[1]], &c = m.v[t[2]];
      if (CGAL::orientation(a, b, c, p) == CGAL::ZERO && coplanar_in_triangle(a, b, c, p)) return true;
    }
    return false;
  }

  // std::nullopt: the winding number at p is not one a region can have (the mesh bounds nothing).
  std::optional<Loc> locate(const P& p, Rng& rng) const {
    if (kind == EMPTY) return Loc::OUT;
    if (kind == FULL) return Loc::IN;
    if (on_boundary(p)) return Loc::ON;
    if (bad) return std::nullopt;
    int w{};
    if (kind == CLOSED) {
      w = winding_to_infinity(p, rng) + (outer ? 1 : 0);
    } else {
      w = winding_via_face(p, rng);
    }
    if (w == 0) return Loc::OUT;
    if (w == 1) return Loc::IN;
    return std::nullopt;
  }

  // Signed number of times the open segment pq leaves through the mesh (+1 per face crossed from its
  // negative to its positive side). std::nullopt if the segment meets an edge or a vertex.
  std::optional<int> crossings(const P& p, const P& q, std::size_t skip = static_cast<std::size_t>(-1)) const {
    auto sb = p.bbox() + q.bbox();
    int w{};
    for (std::size_t i = 0; i < m.f.size(); ++i) {
      if (i == skip || !CGAL::do_overlap(boxes.b[i], sb)) continue;
      const auto& t = m.f[i];
      const auto &a = m.v[t[0]], &b = m.v[t[1]], &c = m.v[t[2]];
      auto s1 = CGAL::orientation(p, q, a, b);
      auto s2 = CGAL::orientation(p, q, b, c);
      if (s1 * s2 < 0) continue;
      auto s3 = CGAL::orientation(p, q, c, a);
      if (s2 * s3 < 0 || s1 * s3 < 0) continue;
      auto o1 = CGAL::orientation(a, b, c, p);
      auto o2 = CGAL::orientation(a, b, c, q);
      if (o1 == o2 && o1 != CGAL::ZERO) continue;
      // The line pq meets the closed triangle and the plane is reached by the closed segment.
      if (s1 == CGAL::ZERO || s2 == CGAL::ZERO || s3 == CGAL::ZERO) {
        if (s1 == CGAL::ZERO && s2 == CGAL::ZERO && s3 == CGAL::ZERO) {
          // The line is in the plane of the face: degenerate unless it misses the triangle.
          return std::nullopt;
        }
        return std::nullopt;
      }
      if (o1 == CGAL::ZERO || o2 == CGAL::ZERO) return std::nullopt;
      w += o1 == CGAL::NEGATIVE ? 1 : -1;
    }
    return w;
  }

 private:
  int winding_to_infinity(const P& p, Rng& rng) const {
    const auto& bb = boxes.all;
    double ext = std::max({bb.xmax() - bb.xmin(), bb.ymax() - bb.ymin(), bb.zmax() - bb.zmin()});
    double px = CGAL::to_double(p.x());
    double py = CGAL::to_double(p.y());
    double pz = CGAL::to_double(p.z());
    if (px > bb.xmax() + ext * 1e-6) return 0;
    double len = (bb.xmax() - std::min(px, bb.xmin())) + ext;
    if (!(len > 0)) len = 1;
    for (int tries = 0; tries < 200; ++tries) {
      double e = ext * (tries < 4 ? 0.02 : 0.5);
      P q{FT(bb.xmax() + len), FT(py + rng.real(-e, e)), FT(pz + rng.real(-e, e))};
      auto w = crossings(p, q);
      if (w) return *w;
    }
    throw std::runtime_error("oracle: no generic direction found");
  }

  int winding_via_face(const P& p, Rng& rng) const {
    for (int tries = 0; tries < 400; ++tries) {
      auto i = static_cast<std::size_t>(rng.below(m.f.size()));
      const auto& t = m.f[i];
      const auto &a = m.v[t[0]], &b = m.v[t[1]], &c = m.v[t[2]];
      int x = rng.range(1, 1000);
      int y = rng.range(1, 1000);
      int z = rng.range(1, 1000);
      auto q = CGAL::barycenter(a, FT(x), b, FT(y), c, FT(z));
      auto side = CGAL::orientation(a, b, c, p);
      if (side == CGAL::ZERO) continue;
      auto w = crossings(p, q, i);
      if (!w) continue;
      return *w + (side == CGAL::NEGATIVE ? 1 : 0);
    }
    throw std::runtime_error("oracle: no generic segment found");
  }

  // The region contains infinity iff the outermost shell is oriented inwards, iff the face first met
  // from far away is seen from its negative side.
  void find_outer() {
    Rng rng{12345};
    for (int tries = 0; tries < 400; ++tries) {
      auto i = static_cast<std::size_t>(rng.below(m.f.size()));
      const auto& t = m.f[i];
      const auto &a = m.v[t[0]], &b = m.v[t[1]], &c = m.v[t[2]];
      auto q = CGAL::barycenter(a, FT(rng.range(1, 1000)), b, FT(rng.range(1, 1000)), c, FT(rng.range(1, 1000)));
      const auto& bb = boxes.all;
      double ext = std::max({bb.xmax() - bb.xmin(), bb.ymax() - bb.ymin(), bb.zmax() - bb.zmin()});
      P far{FT(bb.xmax() + ext), FT(bb.ymin() + ext * rng.unit()), FT(bb.zmin() + ext * rng.unit())};
      auto side = CGAL::orientation(a, b, c, far);
      if (side == CGAL::ZERO) continue;
      auto w = crossings(far, q, i);
      if (!w) continue;
      // inside(far) = w + inside(q as seen from far)
      auto v = *w + (side == CGAL::NEGATIVE ? 1 : 0);
      if (v == 0 || v == 1) {
        outer = v == 1;
        return;
      }
    }
    bad = true;
  }
};

// ---------------------------------------------------------------------------------------------
// Validity

struct Validity_options {
  // Returns whether an edge may be unbalanced (it lies on the boundary of the clipping region).
  std::function<bool(const P&, const P&)> edge_may_be_open;
  bool check_pairs{true};
  std::size_t max_pairs{400000};
};

// Exact intersection tests between triangles, from orientation signs alone.
struct Tri_tests {
  using P2 = K::Point_2;
  using T = std::array<const P*, 3>;

  static P2 proj(const P& p, int axis) {
    return axis == 0 ? P2{p.y(), p.z()} : axis == 1 ? P2{p.z(), p.x()} : P2{p.x(), p.y()};
  }

  // The triangle, projected so that it does not degenerate, counterclockwise.
  static int project(const T& t, std::array<P2, 3>& r) {
    for (int axis = 0; axis < 3; ++axis) {
      r = {proj(*t[0], axis), proj(*t[1], axis), proj(*t[2], axis)};
      auto o = CGAL::orientation(r[0], r[1], r[2]);
      if (o == CGAL::ZERO) continue;
      if (o == CGAL::NEGATIVE) std::swap(r[1], r[2]);
      return axis;
    }
    throw std::runtime_error("oracle: degenerate triangle");
  }

  // Convex sets given by corners, the first a counterclockwise triangle: a common point?
  static bool meets(const std::array<P2, 3>& t, const std::vector<P2>& q) {
    for (int k = 0; k < 3; ++k) {
      bool out = true;
      for (const auto& x : q) out = out && CGAL::orientation(t[k], t[(k + 1) % 3], x) == CGAL::NEGATIVE;
      if (out) return false;
    }
    return true;
  }

  static bool segment_meets_coplanar(const T& t, const P& p, const P& q) {
    std::array<P2, 3> r;
    int axis = project(t, r);
    P2 a = proj(p, axis);
    P2 b = proj(q, axis);
    if (!meets(r, {a, b})) return false;
    int pos = 0;
    int neg = 0;
    for (const auto& x : r) {
      auto o = CGAL::orientation(a, b, x);
      pos += o == CGAL::POSITIVE;
      neg += o == CGAL::NEGATIVE;
    }
    return pos < 3 && neg < 3;
  }

  static bool segment_meets(const T& t, const P& p, const P& q) {
    int op = CGAL::orientation(*t[0], *t[1], *t[2], p);
    int oq = CGAL::orientation(*t[0], *t[1], *t[2], q);
    if (op * oq > 0) return false;
    if (op == 0 && oq == 0) return segment_meets_coplanar(t, p, q);
    if (op == 0 || oq == 0) {
      std::array<P2, 3> r;
      int axis = project(t, r);
      return meets(r, {proj(op == 0 ? p : q, axis)});
    }
    bool pos = false;
    bool neg = false;
    for (int k = 0; k < 3; ++k) {
      auto o = CGAL::orientation(p, q, *t[k], *t[(k + 1) % 3]);
      pos = pos || o == CGAL::POSITIVE;
      neg = neg || o == CGAL::NEGATIVE;
    }
    return !(pos && neg);
  }

  static int side(const T& t, const P& p) { return CGAL::orientation(*t[0], *t[1], *t[2], p); }

  // No shared vertex.
  static bool triangles_meet(const T& s, const T& t) {
    int a[3];
    for (int k = 0; k < 3; ++k) a[k] = side(s, *t[k]);
    if (a[0] != 0 && a[0] == a[1] && a[1] == a[2]) return false;
    if (a[0] == 0 && a[1] == 0 && a[2] == 0) {
      std::array<P2, 3> rs;
      std::array<P2, 3> rt;
      int axis = project(s, rs);
      rt = {proj(*t[0], axis), proj(*t[1], axis), proj(*t[2], axis)};
      if (CGAL::orientation(rt[0], rt[1], rt[2]) == CGAL::NEGATIVE) std::swap(rt[1], rt[2]);
      return meets(rs, {rt[0], rt[1], rt[2]}) && meets(rt, {rs[0], rs[1], rs[2]});
    }
    int b[3];
    for (int k = 0; k < 3; ++k) b[k] = side(t, *s[k]);
    if (b[0] != 0 && b[0] == b[1] && b[1] == b[2]) return false;
    for (int k = 0; k < 3; ++k)
      if (segment_meets(t, *s[k], *s[(k + 1) % 3]) || segment_meets(s, *t[k], *t[(k + 1) % 3])) return true;
    return false;
  }

  // Triangles (v,a,b) and (v,c,d): a common point other than v?
  static bool meet_beyond(const P& v, const P& a, const P& b, const P& c, const P& d) {
    T s{&v, &a, &b};
    T t{&v, &c, &d};
    int oc = side(s, c);
    int od = side(s, d);
    if (oc * od > 0) return false;
    if (oc == 0 && od == 0) {
      std::array<P2, 3> r;
      int axis = project(s, r);
      std::array<P2, 3> q{proj(v, axis), proj(c, axis), proj(d, axis)};
      if (CGAL::orientation(q[0], q[1], q[2]) == CGAL::NEGATIVE) std::swap(q[1], q[2]);
      auto in = [](const std::array<P2, 3>& w, const P2& x) {
        return CGAL::orientation(w[0], w[1], x) != CGAL::NEGATIVE && CGAL::orientation(w[0], x, w[2]) != CGAL::NEGATIVE;
      };
      return in(r, q[1]) || in(r, q[2]) || in(q, r[1]) || in(q, r[2]);
    }
    int oa = side(t, a);
    int ob = side(t, b);
    if (oa * ob > 0) return false;
    return segment_meets(t, a, b) || segment_meets(s, c, d);
  }
};

// Returns a description of the first defect found, or an empty string.
inline std::string find_invalidity(const Mesh& m, const Validity_options& opt = {}) {
  std::vector<bool> used(m.v.size(), false);
  std::map<std::pair<std::size_t, std::size_t>, int> he;
  std::set<std::array<std::size_t, 3>> seen;
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    const auto& t = m.f[i];
    for (auto x : t) {
      if (x >= m.v.size()) return fmt("index: face %zu refers to vertex %zu of %zu", i, x, m.v.size());
      used[x] = true;
    }
    if (t[0] == t[1] || t[1] == t[2] || t[2] == t[0]) return fmt("degenerate: face %zu repeats a vertex", i);
    if (CGAL::collinear(m.v[t[0]], m.v[t[1]], m.v[t[2]])) return fmt("degenerate: face %zu has zero area", i);
    auto s = t;
    std::sort(s.begin(), s.end());
    if (!seen.insert(s).second) return fmt("duplicate: face %zu has the vertices of another face", i);
    for (int k = 0; k < 3; ++k) he[{t[k], t[(k + 1) % 3]}]++;
  }
  for (std::size_t i = 0; i < used.size(); ++i)
    if (!used[i]) return fmt("unused: vertex %zu is used by no face", i);
  {
    std::vector<std::size_t> order(m.v.size());
    std::iota(order.begin(), order.end(), 0);
    std::sort(order.begin(), order.end(),
              [&](auto a, auto b) { return CGAL::compare_xyz(m.v[a], m.v[b]) == CGAL::SMALLER; });
    for (std::size_t i = 1; i < order.size(); ++i)
      if (m.v[order[i - 1]] == m.v[order[i]])
        return fmt("duplicate-vertex: vertices %zu and %zu coincide", order[i - 1], order[i]);
  }
  for (const auto& [e, n] : he) {
    auto it = he.find({e.second, e.first});
    int n2 = it == he.end() ? 0 : it->second;
    if (n != n2 && !(opt.edge_may_be_open && opt.edge_may_be_open(m.v[e.first], m.v[e.second])))
      return fmt("unbalanced: edge (%zu,%zu) is used %d times one way and %d times the other", e.first, e.second, n,
                 n2);
  }
  if (opt.check_pairs) {
    Boxes bx{m};
    std::vector<std::size_t> order(m.f.size());
    std::iota(order.begin(), order.end(), 0);
    std::sort(order.begin(), order.end(), [&](auto a, auto b) { return bx.b[a].xmin() < bx.b[b].xmin(); });
    std::size_t pairs{};
    for (std::size_t oi = 0; oi < order.size(); ++oi) {
      auto i = order[oi];
      for (std::size_t oj = oi + 1; oj < order.size(); ++oj) {
        auto j = order[oj];
        if (bx.b[j].xmin() > bx.b[i].xmax()) break;
        if (!CGAL::do_overlap(bx.b[i], bx.b[j])) continue;
        if (++pairs > opt.max_pairs) return {};
        const auto &s = m.f[i], &t = m.f[j];
        std::vector<std::size_t> shared, so, to;
        for (auto x : s)
          if (x == t[0] || x == t[1] || x == t[2])
            shared.push_back(x);
          else
            so.push_back(x);
        for (auto x : t)
          if (x != s[0] && x != s[1] && x != s[2]) to.push_back(x);
        bool bad = false;
        if (shared.size() == 2) {
          const auto &a = m.v[shared[0]], &b = m.v[shared[1]], &c = m.v[so[0]], &d = m.v[to[0]];
          bad = CGAL::orientation(a, b, c, d) == CGAL::ZERO &&
                CGAL::coplanar_orientation(a, b, c, d) == CGAL::POSITIVE;
        } else if (shared.size() == 1) {
          bad = Tri_tests::meet_beyond(m.v[shared[0]], m.v[so[0]], m.v[so[1]], m.v[to[0]], m.v[to[1]]);
        } else if (shared.empty()) {
          bad = Tri_tests::triangles_meet({&m.v[s[0]], &m.v[s[1]], &m.v[s[2]]}, {&m.v[t[0]], &m.v[t[1]], &m.v[t[2]]});
        }
        if (bad) return fmt("intersecting: faces %zu and %zu intersect away from what they share", i, j);
      }
    }
  }
  return {};
}

// A point in the interior of a face, moved off the face by a fraction of its size.
inline P near_face(const Mesh& m, std::size_t i, Rng& rng, double frac) {
  const auto& t = m.f[i];
  const auto &a = m.v[t[0]], &b = m.v[t[1]], &c = m.v[t[2]];
  auto g = CGAL::barycenter(a, FT(rng.range(1, 64)), b, FT(rng.range(1, 64)), c, FT(rng.range(1, 64)));
  // An approximate normal is as good as the exact one: the oracle decides where the point is.
  double n[3];
  double u[3] = {CGAL::to_double(b.x() - a.x()), CGAL::to_double(b.y() - a.y()), CGAL::to_double(b.z() - a.z())};
  double w[3] = {CGAL::to_double(c.x() - a.x()), CGAL::to_double(c.y() - a.y()), CGAL::to_double(c.z() - a.z())};
  double lu = std::max({std::abs(u[0]), std::abs(u[1]), std::abs(u[2]), 1e-300});
  double lw = std::max({std::abs(w[0]), std::abs(w[1]), std::abs(w[2]), 1e-300});
  double un[3] = {u[0] / lu, u[1] / lu, u[2] / lu};
  double wn[3] = {w[0] / lw, w[1] / lw, w[2] / lw};
  n[0] = un[1] * wn[2] - un[2] * wn[1];
  n[1] = un[2] * wn[0] - un[0] * wn[2];
  n[2] = un[0] * wn[1] - un[1] * wn[0];
  double l = std::max({std::abs(n[0]), std::abs(n[1]), std::abs(n[2])});
  if (!(l > 0)) {
    n[0] = 1;
    n[1] = n[2] = 0;
    l = 1;
  }
  double s = std::min(lu, lw) * frac / l;
  return {g.x() + FT(n[0] * s), g.y() + FT(n[1] * s), g.z() + FT(n[2] * s)};
}

inline bool apply_op(Op op, bool a, bool b) {
  // The operator's number is its truth table read from the complement: bit 3 for (0,0), bit 2 for
  // (1,0), bit 1 for (0,1), bit 0 for (1,1). Written out instead of computed from the library.
  switch (op) {
    case Op::V: return true;
    case Op::A: return a || b;
    case Op::B: return a || !b;
    case Op::C: return !a || b;
    case Op::D: return !(a && b);
    case Op::E: return a == b;
    case Op::F: return !a;
    case Op::G: return !b;
    case Op::H: return b;
    case Op::I: return a;
    case Op::J: return a != b;
    case Op::K: return a && b;
    case Op::L: return a && !b;
    case Op::M: return b && !a;
    case Op::X: return !(a || b);
    case Op::O: return false;
  }
  std::abort();
}

inline const std::vector<Op>& all_ops() {
  static const std::vector<Op> ops{Op::V, Op::A, Op::B, Op::C, Op::D, Op::E, Op::F, Op::G,
                                   Op::H, Op::I, Op::J, Op::K, Op::L, Op::M, Op::X, Op::O};
  return ops;
}

inline const char* op_name(Op op) {
  static const char* names[] = {"V", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "X", "O"};
  return names[static_cast<int>(op)];
}

inline std::uint64_t mesh_sig(const Mesh& m) {
  std::uint64_t h = mix64(m.v.size(), m.f.size());
  for (const auto& p : m.v) {
    double c[3] = {CGAL::to_double(p.x()), CGAL::to_double(p.y()), CGAL::to_double(p.z())};
    for (double d : c) {
      std::uint64_t b;
      std::memcpy(&b, &d, 8);
      h = mix64(h, b);
    }
  }
  for (const auto& t : m.f) h = mix64(h, t[0] * 1000003 + t[1] * 1009 + t[2]);
  return h;
}

inline std::string mesh_text(const Mesh& m, std::size_t max_faces = 24) {
  std::ostringstream os;
  os.precision(17);
  os << "v:[";
  std::size_t n{};
  for (const auto& p : m.v) {
    if (n++ == max_faces) {
      os << "...";
      break;
    }
    os << "(" << CGAL::to_double(p.x()) << "," << CGAL::to_double(p.y()) << "," << CGAL::to_double(p.z()) << ")";
  }
  os << "] f:[";
  n = 0;
  for (const auto& t : m.f) {
    if (n++ == max_faces) {
      os << "...";
      break;
    }
    os << "(" << t[0] << "," << t[1] << "," << t[2] << ")";
  }
  os << "] nv=" << m.v.size() << " nf=" << m.f.size();
  return os.str();
}
