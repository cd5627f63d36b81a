// Oracles over the results of Boolean operations.
#pragma once

#include "gen.h"

struct Result {
  Op op;
  bool prefer_first;
  Region region;
  Mesh m;
  bool ok{false};  // indices are in range, so m is usable
};

inline Result take_result(const Builder& b, Op op, bool prefer_first) {
  Result r{op, prefer_first, b(op, prefer_first), {}, false};
  r.ok = from_soup(r.region.boundary(), r.m);
  return r;
}

// The result as a region with a membership oracle.
inline Solid result_solid(const Result& r, bool open) {
  if (r.region.is_empty()) return Solid::special(false);
  if (r.region.is_full()) return Solid::special(true);
  return open ? Solid::open(r.m) : Solid::closed(r.m);
}

inline std::string pair_text(const Pair& p) {
  return p.cls + " A{" + mesh_text(p.a.m, 40) + "} B{" + mesh_text(p.b.m, 40) + "}";
}

inline P random_point_in(const Pair& p, Rng& rng) {
  Bbox bb;
  bool have = false;
  for (const auto* s : {&p.a, &p.b})
    if (s->kind == Solid::CLOSED || s->kind == Solid::OPEN) {
      bb += s->boxes.all;
      have = true;
    }
  if (!have) return {FT(rng.real(-1, 1)), FT(rng.real(-1, 1)), FT(rng.real(-1, 1))};
  auto in = [&](double lo, double hi) {
    double m = (hi - lo) * 0.1;
    return rng.real(lo - m, hi + m);
  };
  P q{FT(in(bb.xmin(), bb.xmax())), FT(in(bb.ymin(), bb.ymax())), FT(in(bb.zmin(), bb.zmax()))};
  for (int i = 0; p.clipped && i < 8 && !p.clip.inside(q); ++i)
    q = P{FT(in(bb.xmin(), bb.xmax())), FT(in(bb.ymin(), bb.ymax())), FT(in(bb.zmin(), bb.zmax()))};
  return q;
}

inline bool inside_clip(const Pair& p, const P& q) { return !p.clipped || p.clip.inside(q); }

inline Validity_options validity_of(const Pair& p) {
  Validity_options v;
  v.edge_may_be_open = [&p](const P& x, const P& y) { return p.clipped && p.clip.on_same_wall(x, y); };
  return v;
}

inline const char* loc_name(Loc l) { return l == Loc::IN ? "inside" : l == Loc::OUT ? "outside" : "on the boundary"; }

// Operands bound regions by construction, unless they are themselves results of the library.
inline void require_bounding(const Pair& p, bool ok) {
  if (ok) return;
  if (p.cls.rfind("chained", 0) == 0) throw std::runtime_error("the result of an earlier operation bounds no region");
  throw Generator_error("an operand bounds no region: " + pair_text(p));
}

struct Membership {
  const Pair& p;
  Rng& rng;
  std::vector<P> pts;
  std::vector<std::pair<Loc, Loc>> truth;

  void add(const P& q) {
    if (!inside_clip(p, q)) return;
    auto a = p.a.locate(q, rng);
    auto b = p.b.locate(q, rng);
    require_bounding(p, a && b);
    pts.push_back(q);
    truth.emplace_back(*a, *b);
  }
};

inline std::string point_text(const P& q) {
  return fmt("(%.17g,%.17g,%.17g)", CGAL::to_double(q.x()), CGAL::to_double(q.y()), CGAL::to_double(q.z()));
}

// Membership of a set of points in the result against the operator applied to the operands.
// Returns an empty string or a description.
inline std::string check_membership(const Result& r, const Solid& s, const Membership& ms, Rng& rng, long& checked) {
  for (std::size_t i = 0; i < ms.pts.size(); ++i) {
    auto [la, lb] = ms.truth[i];
    if (la == Loc::ON || lb == Loc::ON) continue;
    bool want = apply_op(r.op, la == Loc::IN, lb == Loc::IN);
    auto got = s.locate(ms.pts[i], rng);
    ++checked;
    if (!got)
      return fmt("op %s: the boundary of the result bounds no region near %s", op_name(r.op),
                 point_text(ms.pts[i]).c_str());
    if (*got == Loc::ON || (*got == Loc::IN) != want)
      return fmt("op %s: %s is %s A, %s B, and %s the result", op_name(r.op), point_text(ms.pts[i]).c_str(),
                 loc_name(la), loc_name(lb), loc_name(*got));
  }
  return {};
}

// Every face of the result separates the inside from the outside of the true result, with the outside
// on its positive side: checked on pairs of points on both sides of random points of its faces.
inline std::string check_faces(const Result& r, const Pair& p, const Solid& s, Rng& rng, std::size_t max_faces,
                               long& checked) {
  if (r.m.f.empty()) return {};
  std::vector<std::size_t> order(r.m.f.size());
  std::iota(order.begin(), order.end(), 0);
  rng.shuffle(order);
  if (order.size() > max_faces) order.resize(max_faces);
  for (auto i : order) {
    for (double d : {1e-7, -1e-7}) {
      auto q = near_face(r.m, i, rng, d);
      if (!inside_clip(p, q)) continue;
      auto la = p.a.locate(q, rng);
      auto lb = p.b.locate(q, rng);
      require_bounding(p, la && lb);
      if (*la == Loc::ON || *lb == Loc::ON) continue;
      auto got = s.locate(q, rng);
      ++checked;
      bool want = apply_op(r.op, *la == Loc::IN, *lb == Loc::IN);
      if (!got)
        return fmt("op %s: the boundary of the result bounds no region near %s", op_name(r.op), point_text(q).c_str());
      if (*got == Loc::ON || (*got == Loc::IN) != want)
        return fmt("op %s: %s, next to face %zu of the result, is %s A, %s B, and %s the result", op_name(r.op),
                   point_text(q).c_str(), i, loc_name(*la), loc_name(*lb), loc_name(*got));
    }
  }
  return {};
}

// Whether the triangle number i of m contains p.
inline bool in_face(const Mesh& m, std::size_t i, const P& p) {
  const auto& t = m.f[i];
  const auto &a = m.v[t[0]], &b = m.v[t[1]], &c = m.v[t[2]];
  return CGAL::orientation(a, b, c, p) == CGAL::ZERO && coplanar_in_triangle(a, b, c, p);
}
