// Pairs with an open mesh that ends inside the other one's surroundings. Needs gen.h.
#pragma once

#include "gen.h"

// A triangle in double coordinates, cut into smaller ones.
inline Mesh sheet(const std::array<P, 3>& t, Rng& rng) {
  Mesh m;
  int n = rng.range(1, 3);
  std::map<std::pair<int, int>, std::size_t> ids;
  for (int i = 0; i <= n; ++i)
    for (int j = 0; i + j <= n; ++j) {
      ids[{i, j}] = m.v.size();
      m.v.push_back(CGAL::barycenter(t[0], FT(i), t[1], FT(j), t[2], FT(n - i - j)));
    }
  for (int i = 0; i < n; ++i)
    for (int j = 0; i + j < n; ++j) {
      m.add(ids[{i, j}], ids[{i + 1, j}], ids[{i, j + 1}]);
      if (i + j + 1 < n) m.add(ids[{i + 1, j}], ids[{i + 1, j + 1}], ids[{i, j + 1}]);
    }
  return m;
}

// 0: no contact in general position is missed; 1: crosses; -1: not in general position.
inline int edge_crosses(const P& p, const P& q, const P& a, const P& b, const P& d) {
  int sp = CGAL::orientation(a, b, d, p);
  int sq = CGAL::orientation(a, b, d, q);
  if (sp == 0 || sq == 0) return -1;
  if (sp == sq) return 0;
  int s1 = CGAL::orientation(p, q, a, b);
  int s2 = CGAL::orientation(p, q, b, d);
  int s3 = CGAL::orientation(p, q, d, a);
  if (s1 == 0 || s2 == 0 || s3 == 0) return -1;
  return s1 == s2 && s2 == s3 ? 1 : 0;
}

struct Inconsistent {
  Mesh a, b;
  int want;  // the warnings
  std::string cls;
};

inline Inconsistent inconsistent_pair(Rng& rng) {
  // A triangle that only partly cuts a convex solid, or another triangle, in general position.
  auto pt = [&](double r) { return P{rng.real(-r, r), rng.real(-r, r), rng.real(-r, r)}; };
  for (int tries = 0; tries < 1000; ++tries) {
    std::array<P, 3> t{pt(1), pt(1), pt(1)};
    Mesh mt = sheet(t, rng);
    Mesh mo;
    int want = 0;  // bit 0: the sheet is only partly cut; bit 1: the other is
    std::string cls;
    if (rng.chance(0.4)) {
      std::array<P, 3> u{pt(1), pt(1), pt(1)};
      int tu = 0;
      int ut = 0;
      bool generic = true;
      for (int k = 0; k < 3; ++k) {
        int x = edge_crosses(t[k], t[(k + 1) % 3], u[0], u[1], u[2]);
        int y = edge_crosses(u[k], u[(k + 1) % 3], t[0], t[1], t[2]);
        generic = generic && x >= 0 && y >= 0;
        tu += x > 0;
        ut += y > 0;
      }
      if (!generic || tu + ut != 2) continue;
      // The common segment cuts a triangle in two if both its ends are on the triangle's edges.
      want = (tu == 2 ? 0 : 1) | (ut == 2 ? 0 : 2);
      mo = sheet(u, rng);
      cls = fmt("two_sheets_%d", want);
    } else {
      // The surface of the solid is cut in two only if the whole section is inside the sheet.
      if (rng.chance(0.5)) {
        std::vector<std::array<long, 3>> ip;
        for (int i = 0, n = rng.range(4, 12); i < n; ++i) ip.push_back({rng.range(-900, 900), rng.range(-900, 900), rng.range(-900, 900)});
        auto h = hull_mesh(ip, rng);
        if (!h) continue;
        mo = *h;
        scale_translate(mo, FT(1) / FT(1024), FT(0), FT(0), FT(0));
      } else {
        double lo[3];
        double hi[3];
        for (int a = 0; a < 3; ++a) {
          lo[a] = rng.real(-1, 0.5);
          hi[a] = lo[a] + rng.real(0.1, 1);
        }
        Grid g;
        for (int a = 0; a < 3; ++a) {
          int n = rng.range(1, 3);
          for (int i = 0; i <= n; ++i) g.c[a].push_back(FT(lo[a]) + (FT(hi[a]) - FT(lo[a])) * FT(i) / FT(n));
        }
        mo = voxel_mesh(g, Cells(static_cast<std::size_t>(g.n(0) * g.n(1) * g.n(2)), 1), rng, 2);
      }
      long cut_sheet = 0;  // edges of the sheet's triangle through the surface
      bool generic = true;
      for (auto& f : mo.f)
        for (int k = 0; k < 3 && generic; ++k) {
          int x = edge_crosses(t[k], t[(k + 1) % 3], mo.v[f[0]], mo.v[f[1]], mo.v[f[2]]);
          generic = x >= 0;
          cut_sheet += x > 0;
        }
      for (auto& f : mo.f)
        for (int k = 0; k < 3 && generic; ++k)
          generic = edge_crosses(mo.v[f[k]], mo.v[f[(k + 1) % 3]], t[0], t[1], t[2]) >= 0;
      if (!generic || cut_sheet == 0) continue;
      want = 2;
      cls = fmt("sheet_and_solid,%ld", cut_sheet);
    }
    if (rng.chance(0.5)) mt = flipped(mt);
    if (rng.chance(0.3)) mo = flipped(mo);
    scramble(mt, rng);
    scramble(mo, rng);
    bool swap = rng.chance(0.5);
    if (swap) {
      std::swap(mt, mo);
      want = (want & 1) << 1 | (want >> 1);
    }
    return {mt, mo, want, cls.substr(0, cls.find(','))};
  }
  throw Generator_error("no inconsistent pair found");
}
