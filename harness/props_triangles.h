// C17: Intersections of two triangles.
#pragma once

#include "props_bool.h"
#include "tri_oracle.h"

#include <kigumi/Face_face_intersection.h>
#include <kigumi/Intersection_point_inserter.h>
#include <kigumi/Triangle_region.h>

#include <array>
#include <utility>

inline P lattice_point(Rng& rng, int r) { return {FT(rng.range(0, r)), FT(rng.range(0, r)), FT(rng.range(0, r))}; }

inline std::array<P, 6> random_triangles(Rng& rng, std::string& cls) {
  std::array<P, 6> t;
  int style = rng.range(0, 6);
  switch (style) {
    case 0:
    case 1: {
      cls = "lattice";
      int r = rng.range(1, 4);
      for (auto& p : t) p = lattice_point(rng, r);
      break;
    }
    case 2: {
      cls = "coplanar";
      int r = rng.range(1, 5);
      auto o = lattice_point(rng, 2);
      V3 u{FT(rng.range(-2, 2)), FT(rng.range(-2, 2)), FT(rng.range(0, 2))};
      V3 v{FT(rng.range(0, 2)), FT(rng.range(-2, 2)), FT(rng.range(-2, 2))};
      for (auto& p : t) p = o + FT(rng.range(0, r)) * u + FT(rng.range(0, r)) * v;
      break;
    }
    case 3: {
      cls = "doubles";
      for (auto& p : t) p = P{rng.real(-1, 1), rng.real(-1, 1), rng.real(-1, 1)};
      break;
    }
    case 4: {
      cls = "touching";
      // Points of the second triangle are vertices of the first, or on its edges, or in its plane.
      for (auto& p : t) p = rng.chance(0.5) ? lattice_point(rng, 4) : P{rng.real(0, 4), rng.real(0, 4), rng.real(0, 4)};
      for (int i = 3; i < 6; ++i) {
        int k = rng.range(0, 4);
        if (k == 0) t[static_cast<std::size_t>(i)] = t[rng.below(3)];
        if (k == 1) {
          auto x = rng.below(3);
          // On the edge, or on its line beyond an end.
          t[static_cast<std::size_t>(i)] = rng.chance(0.2) ? t[x] + (t[(x + 1) % 3] - t[x]) * FT(rng.range(2, 3)) : CGAL::barycenter(t[x], FT(rng.range(1, 5)), t[(x + 1) % 3], FT(rng.range(0, 5)));
        }
        if (k == 2) t[static_cast<std::size_t>(i)] = CGAL::barycenter(t[0], FT(rng.range(1, 5)), t[1], FT(rng.range(1, 5)), t[2], FT(rng.range(1, 5)));
      }
      break;
    }
    case 5: {
      cls = "crossing";
      // The second meets the plane of the first at chosen points.
      for (int i = 0; i < 3; ++i) t[static_cast<std::size_t>(i)] = lattice_point(rng, 4);
      auto x = CGAL::barycenter(t[0], FT(rng.range(0, 5)), t[1], FT(rng.range(0, 5)), t[2], FT(rng.range(1, 5)));
      V3 d{FT(rng.range(-3, 3)), FT(rng.range(-3, 3)), FT(rng.range(-3, 3))};
      t[3] = x + d;
      t[4] = x - d * FT(rng.range(1, 3));
      t[5] = rng.chance(0.5) ? t[rng.below(3)] : lattice_point(rng, 4);
      break;
    }
    default: {
      cls = "scaled";
      double s = std::ldexp(1.0, rng.range(-500, 500));
      int r = rng.range(1, 3);
      for (auto& p : t) p = P{rng.range(0, r) * s, rng.range(0, r) * s, (rng.range(0, r) + (rng.chance(0.1) ? 1e-15 : 0)) * s};
      break;
    }
  }
  return t;
}

inline std::string triangles_text(const std::array<P, 6>& t) {
  std::string s;
  for (auto& p : t) s += point_text(p) + " ";
  return s;
}

using Corner = std::pair<int, int>;

inline void case_triangles(Case_ctx& c) {
  auto& rng = c.rng;
  for (int round = 0; round < 8; ++round) {
    std::string cls;
    std::array<P, 6> t;
    T3 a;
    T3 b;
    do {
      t = random_triangles(rng, cls);
      for (std::size_t i = 0; i < 3; ++i) {
        a[i] = q3(t[i]);
        b[i] = q3(t[i + 3]);
      }
    } while (degenerate(a) || degenerate(b));
    if (round == 0 && c.idx % 37 == 0) rep().sample(cls + " " + triangles_text(t));
    if (c.verbose) std::fprintf(stderr, "%s %s\n", cls.c_str(), triangles_text(t).c_str());
    rep().count("class." + cls);
    auto want = intersect_triangles(a, b);
    rep().count(fmt("corners.%zu", want.size()));
    // The points in some order, equal ones identified.
    kigumi::Point_list<K> points;
    points.start_uniqueness_check();
    std::array<std::size_t, 6> id{};
    std::vector<std::size_t> order{0, 1, 2, 3, 4, 5};
    rng.shuffle(order);
    if (rng.chance(0.5)) points.insert(P{77, 77, 77});
    for (auto i : order) id[i] = points.insert(rng.chance(0.3) ? P{FT(CGAL::exact(t[i].x())), FT(CGAL::exact(t[i].y())), FT(CGAL::exact(t[i].z()))} : t[i]);
    points.stop_uniqueness_check();
    for (std::size_t i = 0; i < 6; ++i)
      for (std::size_t j = 0; j < i; ++j)
        if ((id[i] == id[j]) != (t[i] == t[j])) {
          rep().violation("points", "equal points are not identified, or different ones are: " + triangles_text(t));
          return;
        }
    kigumi::Face_face_intersection<K> f{points};
    for (int k = 0; k < 3; ++k) {
      // An order of the vertices, and perhaps the triangles exchanged.
      std::array<std::size_t, 3> pa{0, 1, 2};
      std::array<std::size_t, 3> pb{0, 1, 2};
      bool swap = false;
      if (k > 0) {
        for (auto* p : {&pa, &pb}) {
          std::vector<std::size_t> v(p->begin(), p->end());
          rng.shuffle(v);
          std::copy(v.begin(), v.end(), p->begin());
        }
        swap = rng.chance(0.5);
      }
      std::array<std::size_t, 3> x{id[pa[0]], id[pa[1]], id[pa[2]]};
      std::array<std::size_t, 3> y{id[3 + pb[0]], id[3 + pb[1]], id[3 + pb[2]]};
      T3 tx{a[pa[0]], a[pa[1]], a[pa[2]]};
      T3 ty{b[pb[0]], b[pb[1]], b[pb[2]]};
      if (swap) {
        std::swap(x, y);
        std::swap(tx, ty);
      }
      auto got = f(x[0], x[1], x[2], y[0], y[1], y[2]);
      rep().count("intersections");
      std::string e;
      std::vector<Corner> cg;
      for (auto r : got) cg.emplace_back(static_cast<int>(r) & 7, static_cast<int>(r) >> 3);
      std::vector<Corner> cw;
      for (auto& p : want) cw.emplace_back(part_of(tx, p), part_of(ty, p));
      auto sg = cg;
      auto sw = cw;
      std::sort(sg.begin(), sg.end());
      std::sort(sw.begin(), sw.end());
      if (sg != sw) {
        e = "corners";
      } else if (cg.size() >= 4) {
        // The same cycle, up to direction and start.
        bool same = false;
        for (std::size_t s = 0; s < cw.size() && !same; ++s)
          for (int dir = 0; dir < 2 && !same; ++dir) {
            same = true;
            for (std::size_t i = 0; i < cw.size() && same; ++i)
              same = cg[i] == cw[(dir ? s + cw.size() - i : s + i) % cw.size()];
          }
        if (!same) e = "order of corners";
      }
      if (e.empty()) {
        // The points constructed for the corners, looked up twice and along either triangle's edges.
        auto pts = points;
        kigumi::Intersection_point_inserter<K> ins{pts};
        std::vector<std::size_t> first;
        for (int pass = 0; pass < 2 && e.empty(); ++pass)
          for (std::size_t i = 0; i < got.size() && e.empty(); ++i) {
            auto l = kigumi::intersection(got[i], kigumi::Triangle_region::LEFT_FACE);
            auto r = kigumi::intersection(got[i], kigumi::Triangle_region::RIGHT_FACE);
            auto n = ins.insert(l, x[0], x[1], x[2], r, y[0], y[1], y[2]);
            if (pass == 0) first.push_back(n);
            if (n >= pts.size() || n != first[i]) {
              e = "index of a constructed point";
              continue;
            }
            auto where = std::find(cw.begin(), cw.end(), cg[i]) - cw.begin();
            if (!(q3(pts.at(n)) == want[static_cast<std::size_t>(where)])) e = "constructed point";
          }
        rep().count("points_constructed", static_cast<long>(got.size()));
      }
      if (!e.empty()) {
        std::string g;
        std::string w;
        for (auto [l, r] : cg) g += fmt("(%d,%d)", l, r);
        for (auto [l, r] : cw) w += fmt("(%d,%d)", l, r);
        rep().violation("intersection", e + ": reported " + g + ", should be " + w + ": " + cls + " " + triangles_text(t) + fmt("permuted %zu%zu%zu %zu%zu%zu swap %d", pa[0], pa[1], pa[2], pb[0], pb[1], pb[2], swap));
        return;
      }
    }
    c.sig = mix64(c.sig, hash_str(triangles_text(t)));
  }
  c.nontrivial = true;
}
