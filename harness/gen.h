// Workload generators: pairs of regions whose boundary meshes satisfy the documented preconditions.
#pragma once

#include "mesh.h"

#include <cmath>

// ---------------------------------------------------------------------------------------------
// Coordinates

struct Affine {
  // Integer matrix and translation; exact on integers and rationals.
  int a[3][3]{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  double t[3]{0, 0, 0};
  int det() const {
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) +
           a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
  }
  P operator()(const P& p) const {
    FT c[3];
    for (int i = 0; i < 3; ++i) c[i] = FT(a[i][0]) * p.x() + FT(a[i][1]) * p.y() + FT(a[i][2]) * p.z() + FT(t[i]);
    return {c[0], c[1], c[2]};
  }
};

inline Affine random_affine(Rng& rng) {
  Affine m;
  do {
    for (auto& r : m.a)
      for (auto& x : r) x = rng.range(-2, 2);
  } while (m.det() == 0);
  return m;
}

inline void transform(Mesh& m, const Affine& t) {
  for (auto& p : m.v) p = t(p);
  if (t.det() < 0)
    for (auto& f : m.f) std::swap(f[1], f[2]);
}

inline void scale_translate(Mesh& m, const FT& s, const FT& x, const FT& y, const FT& z) {
  for (auto& p : m.v) p = P{p.x() * s + x, p.y() * s + y, p.z() * s + z};
}

// Replaces every coordinate by the nearest double, so that inputs look like those read from files.
inline void round_coords(Mesh& m) {
  for (auto& p : m.v) {
    auto e = p;
    e.exact();
    p = P{CGAL::to_double(e.x()), CGAL::to_double(e.y()), CGAL::to_double(e.z())};
  }
}

// ---------------------------------------------------------------------------------------------
// Voxel solids: unions of cells of a rectilinear grid.

struct Grid {
  std::vector<FT> c[3];  // increasing coordinates of the grid planes
  int n(int axis) const { return static_cast<int>(c[axis].size()) - 1; }
};

inline Grid random_grid(Rng& rng, int nmax) {
  Grid g;
  int style = rng.range(0, 3);
  for (auto& c : g.c) {
    int n = rng.range(1, nmax);
    if (style == 0) {
      for (int i = 0; i <= n; ++i) c.push_back(FT(i));
    } else if (style == 1) {
      int x = rng.range(-5, 5);
      for (int i = 0; i <= n; ++i) {
        c.push_back(FT(x));
        x += rng.range(1, 4);
      }
    } else if (style == 2) {
      double x = rng.real(-3, 3);
      for (int i = 0; i <= n; ++i) {
        c.push_back(FT(x));
        x += rng.real(0.1, 2.0);
      }
    } else {
      int x = rng.range(-5, 5);
      for (int i = 0; i <= n; ++i) {
        c.push_back(FT(x) / FT(3));
        x += rng.range(1, 4);
      }
    }
  }
  return g;
}

using Cells = std::vector<char>;

inline int cell_index(const Grid& g, int i, int j, int k) { return (k * g.n(1) + j) * g.n(0) + i; }

inline bool cell_at(const Grid& g, const Cells& c, int i, int j, int k) {
  if (i < 0 || j < 0 || k < 0 || i >= g.n(0) || j >= g.n(1) || k >= g.n(2)) return false;
  return c[static_cast<std::size_t>(cell_index(g, i, j, k))] != 0;
}

inline Cells random_cells(const Grid& g, Rng& rng) {
  Cells c(static_cast<std::size_t>(g.n(0) * g.n(1) * g.n(2)), 0);
  int style = rng.range(0, 3);
  if (style == 0) {  // a box
    int lo[3];
    int hi[3];
    for (int a = 0; a < 3; ++a) {
      lo[a] = rng.range(0, g.n(a) - 1);
      hi[a] = rng.range(lo[a], g.n(a) - 1);
    }
    for (int k = lo[2]; k <= hi[2]; ++k)
      for (int j = lo[1]; j <= hi[1]; ++j)
        for (int i = lo[0]; i <= hi[0]; ++i) c[static_cast<std::size_t>(cell_index(g, i, j, k))] = 1;
  } else {
    double d = style == 1 ? 0.25 : style == 2 ? 0.5 : 0.8;
    for (auto& x : c) x = rng.chance(d) ? 1 : 0;
  }
  if (std::find(c.begin(), c.end(), 1) == c.end()) c[rng.below(c.size())] = 1;
  return c;
}

// Fills cells until no lattice edge or vertex is a non-manifold contact.
inline void make_manifold(const Grid& g, Cells& c) {
  bool changed = true;
  while (changed) {
    changed = false;
    for (int k = -1; k < g.n(2); ++k)
      for (int j = -1; j < g.n(1); ++j)
        for (int i = -1; i < g.n(0); ++i) {
          auto fill_diagonal = [&](std::array<int, 3> u, std::array<int, 3> v) {
            bool a = cell_at(g, c, i, j, k);
            bool b = cell_at(g, c, i + u[0] + v[0], j + u[1] + v[1], k + u[2] + v[2]);
            bool p = cell_at(g, c, i + u[0], j + u[1], k + u[2]);
            bool q = cell_at(g, c, i + v[0], j + v[1], k + v[2]);
            std::array<int, 3> at{-1, -1, -1};
            if (a && b && !p && !q)
              at = {i + u[0], j + u[1], k + u[2]};
            else if (p && q && !a && !b)
              at = {i, j, k};
            if (at[0] == -1 && at[1] == -1 && at[2] == -1) return;
            for (int t = 0; t < 3; ++t)
              if (at[t] < 0 || at[t] >= g.n(t)) {
                // The partner on the other side of the diagonal is inside the grid.
                at = (a && b) ? std::array<int, 3>{i + v[0], j + v[1], k + v[2]}
                              : std::array<int, 3>{i + u[0] + v[0], j + u[1] + v[1], k + u[2] + v[2]};
                break;
              }
            for (int t = 0; t < 3; ++t)
              if (at[t] < 0 || at[t] >= g.n(t)) return;
            c[static_cast<std::size_t>(cell_index(g, at[0], at[1], at[2]))] = 1;
            changed = true;
          };
          fill_diagonal({1, 0, 0}, {0, 1, 0});
          fill_diagonal({0, 1, 0}, {0, 0, 1});
          fill_diagonal({1, 0, 0}, {0, 0, 1});
          // Vertex contacts: the full cells (or the empty cells) around the vertex are not connected.
          for (int value = 0; value < 2; ++value) {
            int mask = 0;
            for (int b = 0; b < 8; ++b)
              if (cell_at(g, c, i + (b & 1), j + ((b >> 1) & 1), k + (b >> 2)) == (value == 1)) mask |= 1 << b;
            if (mask == 0) continue;
            int comp = mask & -mask;
            while (true) {
              int grown = comp;
              for (int b = 0; b < 8; ++b)
                if (comp & (1 << b))
                  for (int t = 0; t < 3; ++t)
                    if (mask & (1 << (b ^ (1 << t)))) grown |= 1 << (b ^ (1 << t));
              if (grown == comp) break;
              comp = grown;
            }
            if (comp != mask) {
              for (int b = 0; b < 8; ++b) {
                int x = i + (b & 1);
                int y = j + ((b >> 1) & 1);
                int z = k + (b >> 2);
                if (x >= 0 && y >= 0 && z >= 0 && x < g.n(0) && y < g.n(1) && z < g.n(2) &&
                    !cell_at(g, c, x, y, z)) {
                  c[static_cast<std::size_t>(cell_index(g, x, y, z))] = 1;
                  changed = true;
                  break;
                }
              }
            }
          }
        }
  }
}

inline Mesh voxel_mesh(const Grid& g, const Cells& c, Rng& rng, int diagonals /* 0 or 1: fixed, 2: random */) {
  Mesh m;
  std::map<std::array<int, 3>, std::size_t> ids;
  auto vertex = [&](std::array<int, 3> q) {
    auto [it, inserted] = ids.emplace(q, m.v.size());
    if (inserted)
      m.v.emplace_back(g.c[0][static_cast<std::size_t>(q[0])], g.c[1][static_cast<std::size_t>(q[1])],
                       g.c[2][static_cast<std::size_t>(q[2])]);
    return it->second;
  };
  for (int k = 0; k < g.n(2); ++k)
    for (int j = 0; j < g.n(1); ++j)
      for (int i = 0; i < g.n(0); ++i) {
        if (!cell_at(g, c, i, j, k)) continue;
        for (int axis = 0; axis < 3; ++axis)
          for (int side = 0; side < 2; ++side) {
            std::array<int, 3> nb{i, j, k};
            nb[static_cast<std::size_t>(axis)] += side == 0 ? -1 : 1;
            if (cell_at(g, c, nb[0], nb[1], nb[2])) continue;
            auto u = static_cast<std::size_t>((axis + 1) % 3);
            auto v = static_cast<std::size_t>((axis + 2) % 3);
            std::array<int, 3> q[4];
            for (auto& x : q) {
              x = {i, j, k};
              x[static_cast<std::size_t>(axis)] += side;
            }
            q[1][u] += 1;
            q[2][u] += 1;
            q[2][v] += 1;
            q[3][v] += 1;
            std::size_t id[4];
            for (int t = 0; t < 4; ++t) id[t] = vertex(q[t]);
            if (side == 0) std::swap(id[1], id[3]);
            int d = diagonals == 2 ? rng.range(0, 1) : diagonals;
            if (d == 0) {
              m.add(id[0], id[1], id[2]);
              m.add(id[0], id[2], id[3]);
            } else {
              m.add(id[1], id[2], id[3]);
              m.add(id[1], id[3], id[0]);
            }
          }
      }
  return m;
}

// ---------------------------------------------------------------------------------------------
// Convex polytopes: hull of points with small integer coordinates, by brute force.

inline std::optional<Mesh> hull_mesh(const std::vector<std::array<long, 3>>& in, Rng& rng) {
  std::vector<std::array<long, 3>> p = in;
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  auto n = p.size();
  if (n < 4) return std::nullopt;
  using L = long;
  auto sub = [](const std::array<L, 3>& a, const std::array<L, 3>& b) {
    return std::array<L, 3>{a[0] - b[0], a[1] - b[1], a[2] - b[2]};
  };
  auto cross = [](const std::array<L, 3>& a, const std::array<L, 3>& b) {
    return std::array<L, 3>{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  };
  auto dot = [](const std::array<L, 3>& a, const std::array<L, 3>& b) {
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
  };
  Mesh m;
  std::map<std::size_t, std::size_t> ids;
  std::set<std::vector<std::size_t>> done;
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = i + 1; j < n; ++j)
      for (std::size_t k = j + 1; k < n; ++k) {
        auto nrm = cross(sub(p[j], p[i]), sub(p[k], p[i]));
        if (nrm[0] == 0 && nrm[1] == 0 && nrm[2] == 0) continue;
        bool pos = false;
        bool neg = false;
        std::vector<std::size_t> on;
        for (std::size_t x = 0; x < n; ++x) {
          auto d = dot(nrm, sub(p[x], p[i]));
          if (d > 0)
            pos = true;
          else if (d < 0)
            neg = true;
          else
            on.push_back(x);
        }
        if (pos && neg) continue;
        if (!pos && !neg) return std::nullopt;  // flat
        if (pos)
          for (auto& x : nrm) x = -x;
        if (!done.insert(on).second) continue;
        // The convex polygon of the points on this plane, counterclockwise about nrm.
        std::vector<std::size_t> poly;
        // Gift wrapping with strict corners.
        auto start = on[0];  // lexicographically smallest: an extreme point
        auto cur = start;
        do {
          poly.push_back(cur);
          std::size_t best = on[0] == cur ? on[1] : on[0];
          for (auto x : on) {
            if (x == cur || x == best) continue;
            auto o = dot(nrm, cross(sub(p[best], p[cur]), sub(p[x], p[cur])));
            auto db = sub(p[best], p[cur]);
            auto dx = sub(p[x], p[cur]);
            if (o < 0 || (o == 0 && dot(dx, dx) > dot(db, db))) best = x;
          }
          cur = best;
        } while (cur != start && poly.size() <= on.size());
        std::rotate(poly.begin(), poly.begin() + static_cast<long>(rng.below(poly.size())), poly.end());
        for (auto x : poly)
          if (ids.emplace(x, m.v.size()).second)
            m.v.emplace_back(static_cast<double>(p[x][0]), static_cast<double>(p[x][1]), static_cast<double>(p[x][2]));
        for (std::size_t t = 1; t + 1 < poly.size(); ++t) m.add(ids[poly[0]], ids[poly[t]], ids[poly[t + 1]]);
      }
  return m;
}

inline std::vector<std::array<long, 3>> random_ipoints(Rng& rng, int n, int r) {
  std::vector<std::array<long, 3>> p;
  for (int i = 0; i < n; ++i) p.push_back({rng.range(-r, r), rng.range(-r, r), rng.range(-r, r)});
  return p;
}

inline Mesh random_hull(Rng& rng, int n, int r) {
  while (true) {
    auto m = hull_mesh(random_ipoints(rng, n, r), rng);
    if (m) return *m;
  }
}

// ---------------------------------------------------------------------------------------------
// Star-shaped solids and tori with generic double coordinates.

inline Mesh uv_sphere(int nu, int nv, const std::function<double(int, int)>& radius, Rng& rng) {
  Mesh m;
  const double pi = 3.14159265358979323846;
  auto at = [&](int i, int j) -> std::size_t { return 1 + static_cast<std::size_t>((j - 1) * nu + i % nu); };
  m.v.emplace_back(0, 0, -radius(0, 0));
  for (int j = 1; j < nv; ++j)
    for (int i = 0; i < nu; ++i) {
      double th = 2 * pi * i / nu;
      double ph = -pi / 2 + pi * j / nv;
      double r = radius(i, j);
      m.v.emplace_back(r * std::cos(ph) * std::cos(th), r * std::cos(ph) * std::sin(th), r * std::sin(ph));
    }
  m.v.emplace_back(0, 0, radius(0, nv));
  auto top = m.v.size() - 1;
  for (int i = 0; i < nu; ++i) {
    m.add(0, at(i + 1, 1), at(i, 1));
    for (int j = 1; j < nv - 1; ++j) {
      auto a = at(i, j);
      auto b = at(i + 1, j);
      auto c = at(i + 1, j + 1);
      auto d = at(i, j + 1);
      if (rng.chance(0.5)) {
        m.add(a, b, c);
        m.add(a, c, d);
      } else {
        m.add(a, b, d);
        m.add(b, c, d);
      }
    }
    m.add(at(i, nv - 1), at(i + 1, nv - 1), top);
  }
  return m;
}

inline bool is_star_about_origin(const Mesh& m) {
  P o{0, 0, 0};
  for (const auto& t : m.f)
    if (CGAL::orientation(m.v[t[0]], m.v[t[1]], m.v[t[2]], o) != CGAL::NEGATIVE) return false;
  return true;
}

inline Mesh random_star(Rng& rng, int nu, int nv, double wobble) {
  for (int tries = 0; tries < 20; ++tries) {
    auto m = uv_sphere(nu, nv, [&](int, int) { return 1.0 + wobble * rng.real(-1, 1); }, rng);
    if (is_star_about_origin(m)) return m;
  }
  return uv_sphere(nu, nv, [&](int, int) { return 1.0; }, rng);
}

inline Mesh torus(int nu, int nv, double r0, double r1) {
  Mesh m;
  const double pi = 3.14159265358979323846;
  for (int i = 0; i < nu; ++i)
    for (int j = 0; j < nv; ++j) {
      double th = 2 * pi * i / nu;
      double ph = 2 * pi * j / nv;
      double r = r0 + r1 * std::cos(ph);
      m.v.emplace_back(r * std::cos(th), r * std::sin(th), r1 * std::sin(ph));
    }
  auto at = [&](int i, int j) { return static_cast<std::size_t>((i % nu) * nv + j % nv); };
  for (int i = 0; i < nu; ++i)
    for (int j = 0; j < nv; ++j) {
      m.add(at(i, j), at(i + 1, j), at(i + 1, j + 1));
      m.add(at(i, j), at(i + 1, j + 1), at(i, j + 1));
    }
  return m;
}

// ---------------------------------------------------------------------------------------------
// Pairs

// The common convex region of open meshes: a box, or an affine image of one.
struct Clip {
  double box[6]{};  // x0,x1,y0,y1,z0,z1
  FT to[3][3], from[3][3], shift[3];

  Clip() {
    // A default-constructed FT has no value.
    for (int i = 0; i < 3; ++i) {
      shift[i] = FT(0);
      for (int j = 0; j < 3; ++j) to[i][j] = from[i][j] = FT(i == j ? 1 : 0);
    }
  }

  P out(const P& p) const {
    FT c[3];
    for (int i = 0; i < 3; ++i) c[i] = to[i][0] * p.x() + to[i][1] * p.y() + to[i][2] * p.z() + shift[i];
    return {c[0], c[1], c[2]};
  }
  P in(const P& q) const {
    P p{q.x() - shift[0], q.y() - shift[1], q.z() - shift[2]};
    FT c[3];
    for (int i = 0; i < 3; ++i) c[i] = from[i][0] * p.x() + from[i][1] * p.y() + from[i][2] * p.z();
    return {c[0], c[1], c[2]};
  }
  void set(const Affine& t) {
    int d = t.det();
    for (int i = 0; i < 3; ++i) {
      shift[i] = FT(t.t[i]);
      for (int j = 0; j < 3; ++j) {
        to[i][j] = FT(t.a[i][j]);
        int r0 = (j + 1) % 3;
        int r1 = (j + 2) % 3;
        int c0 = (i + 1) % 3;
        int c1 = (i + 2) % 3;
        from[i][j] = FT(t.a[r0][c0] * t.a[r1][c1] - t.a[r0][c1] * t.a[r1][c0]) / FT(d);
      }
    }
  }
  bool inside(const P& q) const {
    auto p = in(q);
    return p.x() > FT(box[0]) && p.x() < FT(box[1]) && p.y() > FT(box[2]) && p.y() < FT(box[3]) && p.z() > FT(box[4]) &&
           p.z() < FT(box[5]);
  }
  // Whether both points are on one and the same side of the box.
  bool on_same_wall(const P& q, const P& r) const {
    auto a = in(q);
    auto b = in(r);
    for (int w = 0; w < 6; ++w)
      if (a.cartesian(w / 2) == FT(box[w]) && b.cartesian(w / 2) == FT(box[w])) return true;
    return false;
  }
};

struct Pair {
  Solid a;
  Solid b;
  std::string cls;  // generator class, for statistics
  bool clipped{false};
  Clip clip;
};

inline Mesh random_small_solid(Rng& rng) {
  switch (rng.range(0, 4)) {
    case 0: {
      auto g = random_grid(rng, 2);
      auto c = random_cells(g, rng);
      if (rng.chance(0.5)) make_manifold(g, c);
      return voxel_mesh(g, c, rng, 2);
    }
    case 1:
      return random_hull(rng, rng.range(4, 8), 4);
    case 2:
      return random_star(rng, rng.range(3, 7), rng.range(2, 5), 0.3);
    case 3:
      return torus(rng.range(3, 7), rng.range(3, 5), 2, 0.7);
    default: {
      // A shell: a star with a smaller one removed from its inside.
      auto m = random_star(rng, rng.range(4, 7), rng.range(3, 5), 0.1);
      auto in = random_star(rng, rng.range(3, 5), rng.range(2, 4), 0.1);
      scale_translate(in, FT(0.125), FT(0), FT(0), FT(0));
      return merged(m, flipped(in));
    }
  }
}

// Two voxel solids over the same grid: every kind of coincidence between faces, edges and vertices.
inline Pair gen_voxel_same(Rng& rng, int nmax) {
  Pair p;
  p.cls = "voxel-same-grid";
  auto g = random_grid(rng, nmax);
  auto ca = random_cells(g, rng);
  auto cb = random_cells(g, rng);
  int kind = rng.range(0, 5);
  if (kind == 1) {  // B inside A
    for (std::size_t i = 0; i < ca.size(); ++i) ca[i] = static_cast<char>(ca[i] | cb[i]);
  } else if (kind == 2) {  // complementary
    bool any = false;
    for (std::size_t i = 0; i < ca.size(); ++i) {
      cb[i] = static_cast<char>(cb[i] && !ca[i]);
      any |= cb[i] != 0;
    }
    if (!any) cb = ca;
  } else if (kind == 3) {  // differ in a cell
    cb = ca;
    auto i = rng.below(cb.size());
    cb[i] = static_cast<char>(!cb[i]);
    if (std::find(cb.begin(), cb.end(), 1) == cb.end()) cb[i] = 1;
  }
  bool manifold = rng.chance(0.4);
  if (manifold) {
    make_manifold(g, ca);
    make_manifold(g, cb);
    p.cls += "-manifold";
  }
  int da = rng.range(0, 2);
  int db = rng.chance(0.5) ? da : rng.range(0, 2);
  Rng diag_a = rng;
  Rng diag_b = rng.chance(0.5) ? diag_a : Rng{rng.next()};
  auto ma = voxel_mesh(g, ca, diag_a, da);
  auto mb = voxel_mesh(g, cb, diag_b, db);
  rng.next();
  if (rng.chance(0.5)) {
    auto t = random_affine(rng);
    for (auto& x : t.t) x = rng.range(-3, 3);
    transform(ma, t);
    transform(mb, t);
  }
  p.a = Solid::closed(std::move(ma));
  p.b = Solid::closed(std::move(mb));
  return p;
}

// Two voxel solids over grids that share some of their planes, so that faces overlap partially.
inline Pair gen_voxel_overlay(Rng& rng, int nmax) {
  Pair p;
  p.cls = "voxel-overlay";
  Grid ga;
  Grid gb;
  for (int a = 0; a < 3; ++a) {
    std::set<int> sa;
    std::set<int> sb;
    int na = rng.range(1, nmax);
    int nb = rng.range(1, nmax);
    while (static_cast<int>(sa.size()) <= na) sa.insert(rng.range(0, 5));
    while (static_cast<int>(sb.size()) <= nb) sb.insert(rng.range(0, 5));
    for (int x : sa) ga.c[a].push_back(FT(x));
    for (int x : sb) gb.c[a].push_back(FT(x));
  }
  auto ca = random_cells(ga, rng);
  auto cb = random_cells(gb, rng);
  if (rng.chance(0.5)) {
    make_manifold(ga, ca);
    make_manifold(gb, cb);
  }
  auto ma = voxel_mesh(ga, ca, rng, 2);
  auto mb = voxel_mesh(gb, cb, rng, 2);
  if (rng.chance(0.5)) {
    auto t = random_affine(rng);
    transform(ma, t);
    transform(mb, t);
  }
  p.a = Solid::closed(std::move(ma));
  p.b = Solid::closed(std::move(mb));
  return p;
}

// Lattice polytopes with shared vertices, edges and planes.
inline Pair gen_hulls(Rng& rng, int n) {
  Pair p;
  p.cls = "hulls";
  int r = rng.range(1, 5);
  while (true) {
    auto pa = random_ipoints(rng, rng.range(4, n), r);
    auto pb = random_ipoints(rng, rng.range(4, n), r);
    for (auto& x : pb)
      if (rng.chance(0.4)) x = rng.pick(pa);
    auto ma = hull_mesh(pa, rng);
    auto mb = hull_mesh(pb, rng);
    if (!ma || !mb) continue;
    p.a = Solid::closed(std::move(*ma));
    p.b = Solid::closed(std::move(*mb));
    return p;
  }
}

// Generic position: smooth-looking solids with double coordinates under a random placement.
inline Pair gen_generic(Rng& rng, int n) {
  Pair p;
  p.cls = "generic";
  auto make = [&]() -> Mesh {
    switch (rng.range(0, 2)) {
      case 0:
        return random_star(rng, rng.range(3, n), rng.range(2, n), rng.real(0, 0.5));
      case 1:
        return torus(rng.range(3, n), rng.range(3, n), 1, rng.real(0.2, 0.7));
      default:
        return random_small_solid(rng);
    }
  };
  auto ma = make();
  auto mb = make();
  // A rotation-like matrix with rational entries (a Cayley transform), then a shift.
  int a = rng.range(-4, 4);
  int b = rng.range(-4, 4);
  int c = rng.range(-4, 4);
  int d = rng.range(1, 4);
  FT s = FT(a * a + b * b + c * c + d * d);
  FT rot[3][3] = {{FT(d * d + a * a - b * b - c * c) / s, FT(2 * (a * b - c * d)) / s, FT(2 * (a * c + b * d)) / s},
                  {FT(2 * (a * b + c * d)) / s, FT(d * d - a * a + b * b - c * c) / s, FT(2 * (b * c - a * d)) / s},
                  {FT(2 * (a * c - b * d)) / s, FT(2 * (b * c + a * d)) / s, FT(d * d - a * a - b * b + c * c) / s}};
  for (auto& q : mb.v)
    q = P{rot[0][0] * q.x() + rot[0][1] * q.y() + rot[0][2] * q.z(),
          rot[1][0] * q.x() + rot[1][1] * q.y() + rot[1][2] * q.z(),
          rot[2][0] * q.x() + rot[2][1] * q.y() + rot[2][2] * q.z()};
  double sc = rng.real(0.4, 1.5);
  scale_translate(mb, FT(sc), FT(rng.real(-1, 1)), FT(rng.real(-1, 1)), FT(rng.real(-1, 1)));
  p.a = Solid::closed(std::move(ma));
  p.b = Solid::closed(std::move(mb));
  return p;
}

// Regions of several components, nested or side by side.
inline Pair gen_components(Rng& rng) {
  Pair p;
  p.cls = "components";
  auto make = [&]() {
    int k = rng.range(1, 3);
    Mesh all;
    for (int i = 0; i < k; ++i) {
      auto m = random_small_solid(rng);
      Boxes bx{m};
      double e = std::max({bx.all.xmax() - bx.all.xmin(), bx.all.ymax() - bx.all.ymin(), bx.all.zmax() - bx.all.zmin()});
      double cx = (bx.all.xmax() + bx.all.xmin()) / 2;
      double cy = (bx.all.ymax() + bx.all.ymin()) / 2;
      double cz = (bx.all.zmax() + bx.all.zmin()) / 2;
      double s = 1.9 / e;
      // Component i lives in the box [2i, 2i+2) along x.
      scale_translate(m, FT(s), FT(2.0 * i - cx * s), FT(-cy * s + rng.real(-0.3, 0.3)), FT(-cz * s));
      all = merged(all, m);
    }
    return all;
  };
  auto ma = make();
  auto mb = make();
  scale_translate(mb, FT(rng.chance(0.3) ? 1.0 : rng.real(0.3, 1.2)), FT(rng.real(-1.5, 1.5)), FT(rng.real(-0.5, 0.5)),
                  FT(rng.real(-0.5, 0.5)));
  p.a = Solid::closed(std::move(ma));
  p.b = Solid::closed(std::move(mb));
  return p;
}

// Nested: B strictly inside A, or A and B far apart, or one filling a cavity of the other: no
// intersections at all, so everything is decided globally.
inline Pair gen_disjoint(Rng& rng) {
  Pair p;
  p.cls = "non-crossing";
  auto ma = random_small_solid(rng);
  auto mb = random_small_solid(rng);
  Boxes ba{ma};
  Boxes bb{mb};
  double ea = std::max({ba.all.xmax() - ba.all.xmin(), ba.all.ymax() - ba.all.ymin(), ba.all.zmax() - ba.all.zmin()});
  double eb = std::max({bb.all.xmax() - bb.all.xmin(), bb.all.ymax() - bb.all.ymin(), bb.all.zmax() - bb.all.zmin()});
  double s = rng.chance(0.5) ? ea / eb * 0.03125 : ea / eb;
  double where[3];
  if (s * eb < ea * 0.5) {
    // Near a random point of A's box (may or may not touch A's surface).
    where[0] = rng.real(ba.all.xmin(), ba.all.xmax());
    where[1] = rng.real(ba.all.ymin(), ba.all.ymax());
    where[2] = rng.real(ba.all.zmin(), ba.all.zmax());
  } else {
    where[0] = ba.all.xmax() + ea * 2;
    where[1] = rng.real(-1, 1);
    where[2] = rng.real(-1, 1);
  }
  double c[3] = {(bb.all.xmin() + bb.all.xmax()) / 2, (bb.all.ymin() + bb.all.ymax()) / 2,
                 (bb.all.zmin() + bb.all.zmax()) / 2};
  scale_translate(mb, FT(s), FT(where[0] - c[0] * s), FT(where[1] - c[1] * s), FT(where[2] - c[2] * s));
  if (rng.chance(0.5)) std::swap(ma, mb);
  p.a = Solid::closed(std::move(ma));
  p.b = Solid::closed(std::move(mb));
  return p;
}

// Operands that are themselves results of an operation, hence with rational coordinates.
inline Pair gen_chained(Rng& rng) {
  Pair p;
  p.cls = "chained";
  for (int tries = 0; tries < 20; ++tries) {
    auto q = rng.chance(0.5) ? gen_hulls(rng, 7) : gen_generic(rng, 5);
    const Op ops[] = {Op::A, Op::K, Op::L, Op::J};
    Builder b{to_region(q.a.m), to_region(q.b.m)};
    auto r = b(ops[rng.below(4)]);
    if (r.is_empty_or_full()) continue;
    Mesh ma;
    if (!from_soup(r.boundary(), ma)) continue;
    ma.id.clear();
    if (!find_invalidity(ma).empty()) continue;  // a broken result is reported where it is produced
    Mesh mb = rng.chance(0.5) ? q.b.m : random_small_solid(rng);
    if (rng.chance(0.3)) {
      mb = ma;
      scale_translate(mb, FT(1), FT(rng.range(-1, 1)) / FT(7), FT(rng.range(-1, 1)), FT(0));
    }
    p.a = Solid::closed(std::move(ma));
    p.b = Solid::closed(std::move(mb));
    return p;
  }
  return gen_hulls(rng, 7);
}

// Height-field surfaces spanning a box, oriented upwards: the region below. With a closed mesh
// strictly inside the box, or with another height field over the same box.
struct Field {
  std::vector<FT> xs, ys;
  std::vector<std::vector<FT>> z;
  std::vector<std::vector<char>> diag;
};

inline Mesh field_mesh(const Field& f) {
  Mesh m;
  auto nx = f.xs.size();
  auto ny = f.ys.size();
  for (std::size_t j = 0; j < ny; ++j)
    for (std::size_t i = 0; i < nx; ++i) m.v.emplace_back(f.xs[i], f.ys[j], f.z[j][i]);
  for (std::size_t j = 0; j + 1 < ny; ++j)
    for (std::size_t i = 0; i + 1 < nx; ++i) {
      auto a = j * nx + i;
      auto b = a + 1;
      auto c = a + nx + 1;
      auto d = a + nx;
      if (f.diag[j][i]) {
        m.add(a, b, c);
        m.add(a, c, d);
      } else {
        m.add(a, b, d);
        m.add(b, c, d);
      }
    }
  return m;
}

inline Field random_field(Rng& rng, int n, double ext, bool integral) {
  Field f;
  auto coords = [&](std::vector<FT>& c) {
    std::set<double> s{0.0, ext};
    int k = rng.range(0, n);
    for (int i = 0; i < k; ++i) s.insert(integral ? rng.range(1, static_cast<int>(ext) - 1) : rng.real(0.05, 0.95) * ext);
    for (double d : s) c.push_back(FT(d));
  };
  coords(f.xs);
  coords(f.ys);
  int zr = rng.range(0, 2);
  for (std::size_t j = 0; j < f.ys.size(); ++j) {
    f.z.emplace_back();
    f.diag.emplace_back();
    for (std::size_t i = 0; i < f.xs.size(); ++i) {
      f.z.back().push_back(integral ? FT(rng.range(-zr, zr)) : FT(rng.real(-1, 1)));
      f.diag.back().push_back(rng.chance(0.5) ? 1 : 0);
    }
  }
  return f;
}

inline Pair gen_open_fields(Rng& rng) {
  Pair p;
  p.cls = "open";
  p.clipped = true;
  bool integral = rng.chance(0.5);
  double ext = 6;
  auto fa = random_field(rng, 3, ext, integral);
  auto ma = field_mesh(fa);
  double clip[6] = {0, ext, 0, ext, -1000, 1000};
  std::copy(clip, clip + 6, p.clip.box);
  auto place = [&](Mesh m) {
    // Strictly inside the clipping box.
    Boxes bx{m};
    double e = std::max({bx.all.xmax() - bx.all.xmin(), bx.all.ymax() - bx.all.ymin(), bx.all.zmax() - bx.all.zmin()});
    double s = integral ? 1 : rng.real(1, 4) / e;
    if (e * s > 4.5) s = 4.0 / e;
    double c[3] = {(bx.all.xmin() + bx.all.xmax()) / 2, (bx.all.ymin() + bx.all.ymax()) / 2,
                   (bx.all.zmin() + bx.all.zmax()) / 2};
    scale_translate(m, FT(s), FT(3 - c[0] * s), FT(3 - c[1] * s), FT(-c[2] * s));
    return m;
  };
  int kind = rng.range(0, 3);
  if (kind == 0) {
    p.cls = "open-closed";
    p.a = Solid::open(std::move(ma));
    p.b = Solid::closed(place(random_small_solid(rng)));
    if (rng.chance(0.5)) std::swap(p.a, p.b);
  } else {
    Field fb;
    if (kind == 1) {
      fb = random_field(rng, 3, ext, integral);
    } else {
      // Same field with some heights and some diagonals changed: partial overlaps.
      fb = fa;
      for (auto& r : fb.z)
        for (auto& z : r)
          if (rng.chance(0.4)) z = z + FT(rng.range(-1, 1));
      if (kind == 3)
        for (auto& r : fb.diag)
          for (auto& d : r)
            if (rng.chance(0.4)) d = static_cast<char>(!d);
    }
    auto mb = field_mesh(fb);
    bool fa_flip = rng.chance(0.3);
    bool fb_flip = rng.chance(0.3);
    p.a = Solid::open(fa_flip ? flipped(ma) : ma);
    p.b = Solid::open(fb_flip ? flipped(mb) : mb);
  }
  return p;
}

// The faces of a voxel solid that are not on the walls of the grid: a boundary open along the walls.
inline std::optional<Mesh> voxel_open_mesh(const Grid& g, const Cells& c, Rng& rng, int diagonals) {
  auto all = voxel_mesh(g, c, rng, diagonals);
  Mesh m;
  std::map<std::size_t, std::size_t> ids;
  for (const auto& t : all.f) {
    bool wall = false;
    for (int a = 0; a < 3; ++a)
      for (const auto& w : {g.c[a].front(), g.c[a].back()})
        wall = wall || (all.v[t[0]].cartesian(a) == w && all.v[t[1]].cartesian(a) == w && all.v[t[2]].cartesian(a) == w);
    if (wall) continue;
    std::size_t id[3];
    for (int k = 0; k < 3; ++k) {
      auto [it, inserted] = ids.emplace(t[static_cast<std::size_t>(k)], m.v.size());
      if (inserted) m.v.push_back(all.v[it->first]);
      id[k] = it->second;
    }
    m.add(id[0], id[1], id[2]);
  }
  if (m.f.empty()) return std::nullopt;
  return m;
}

inline Pair gen_open_voxels(Rng& rng) {
  Pair p;
  p.cls = "open-voxel";
  p.clipped = true;
  for (int tries = 0;; ++tries) {
    Grid g = random_grid(rng, 4);
    bool wide = true;
    for (int a = 0; a < 3; ++a) wide = wide && g.n(a) >= 2;
    if (!wide) continue;
    for (int a = 0; a < 3; ++a) {
      p.clip.box[2 * a] = CGAL::to_double(g.c[a].front());
      p.clip.box[2 * a + 1] = CGAL::to_double(g.c[a].back());
      if (FT(p.clip.box[2 * a]) != g.c[a].front() || FT(p.clip.box[2 * a + 1]) != g.c[a].back()) wide = false;
    }
    if (!wide) continue;
    auto ca = random_cells(g, rng);
    auto cb = random_cells(g, rng);
    if (rng.chance(0.3)) {
      cb = ca;
      for (auto& x : cb)
        if (rng.chance(0.15)) x = static_cast<char>(!x);
    }
    if (rng.chance(0.4)) {
      make_manifold(g, ca);
      make_manifold(g, cb);
    }
    int da = rng.range(0, 2);
    auto ma = voxel_open_mesh(g, ca, rng, da);
    if (!ma) continue;
    p.a = Solid::open(std::move(*ma));
    if (rng.chance(0.3)) {
      // A closed solid strictly inside the clip.
      bool inner = true;
      for (int a = 0; a < 3; ++a) inner = inner && g.n(a) >= 3;
      if (!inner) continue;
      bool any = false;
      for (int k = 0; k < g.n(2); ++k)
        for (int j = 0; j < g.n(1); ++j)
          for (int i = 0; i < g.n(0); ++i) {
            auto& x = cb[static_cast<std::size_t>(cell_index(g, i, j, k))];
            if (i == 0 || j == 0 || k == 0 || i == g.n(0) - 1 || j == g.n(1) - 1 || k == g.n(2) - 1) x = 0;
            any = any || x;
          }
      if (!any) continue;
      p.b = Solid::closed(voxel_mesh(g, cb, rng, rng.range(0, 2)));
      p.cls = "open-voxel-closed";
      if (rng.chance(0.5)) std::swap(p.a, p.b);
    } else {
      auto mb = voxel_open_mesh(g, cb, rng, rng.chance(0.5) ? da : 2);
      if (!mb) continue;
      p.b = Solid::open(std::move(*mb));
    }
    return p;
  }
}

// Several surfaces over one box that do not meet each other: layers.
inline Pair gen_open_layers(Rng& rng) {
  Pair p;
  p.cls = "open-layers";
  p.clipped = true;
  double clip[6] = {0, 6, 0, 6, -1000, 1000};
  std::copy(clip, clip + 6, p.clip.box);
  bool integral = rng.chance(0.5);
  auto layers = [&]() {
    Mesh all;
    int k = rng.range(1, 3);
    bool up = rng.chance(0.5);
    for (int i = 0; i < k; ++i) {
      auto m = field_mesh(random_field(rng, 2, 6, integral));
      for (auto& q : m.v) q = P{q.x(), q.y(), q.z() + FT(5 * i)};
      all = merged(all, up ? m : flipped(m));
      up = !up;
    }
    return all;
  };
  auto ma = layers();
  auto mb = layers();
  int dz = rng.range(-6, 6);
  if (!integral || rng.chance(0.5)) scale_translate(mb, FT(1), FT(0), FT(0), integral ? FT(dz) : FT(dz + rng.unit()));
  p.a = Solid::open(std::move(ma));
  p.b = Solid::open(std::move(mb));
  return p;
}

inline Pair gen_open(Rng& rng) {
  double r = rng.unit();
  auto p = r < 0.45 ? gen_open_fields(rng) : r < 0.85 ? gen_open_voxels(rng) : gen_open_layers(rng);
  if (rng.chance(0.3)) {
    auto t = random_affine(rng);
    for (auto& x : t.t) x = rng.range(-3, 3);
    p.clip.set(t);
    for (auto* s : {&p.a, &p.b}) {
      transform(s->m, t);
      s->boxes = Boxes{s->m};
      if (s->kind == Solid::CLOSED) *s = Solid::closed(std::move(s->m));
    }
    p.cls += "-affine";
  }
  return p;
}

inline void complement(Solid& s) {
  s.m = flipped(s.m);
  if (s.kind == Solid::CLOSED) s.outer = !s.outer;
}

// The boundary as a fresh solid after its mesh was edited in place.
inline void refresh(Solid& s) {
  if (s.kind == Solid::CLOSED)
    s = Solid::closed(std::move(s.m));
  else if (s.kind == Solid::OPEN)
    s = Solid::open(std::move(s.m));
}

// Every face cut into four at the midpoints of its edges.
inline Mesh subdivided(const Mesh& m) {
  Mesh r;
  r.v = m.v;
  std::map<std::pair<std::size_t, std::size_t>, std::size_t> mid;
  auto at = [&](std::size_t a, std::size_t b) {
    auto key = std::minmax(a, b);
    auto [it, inserted] = mid.emplace(std::pair<std::size_t, std::size_t>{key.first, key.second}, r.v.size());
    if (inserted) r.v.push_back(CGAL::midpoint(m.v[a], m.v[b]));
    return it->second;
  };
  for (const auto& t : m.f) {
    auto x = at(t[0], t[1]);
    auto y = at(t[1], t[2]);
    auto z = at(t[2], t[0]);
    r.add(t[0], x, z);
    r.add(t[1], y, x);
    r.add(t[2], z, y);
    r.add(x, y, z);
  }
  return r;
}

// Hundreds of faces: enough for loops and sorts to be split over threads.
inline Pair gen_large(Rng& rng) {
  Pair p;
  switch (rng.range(0, 3)) {
    case 0:
      p = gen_voxel_same(rng, 6);
      break;
    case 1:
      p = gen_generic(rng, 22);
      break;
    case 2:
      p = gen_hulls(rng, 8);
      break;
    default:
      p = gen_voxel_overlay(rng, 3);
      break;
  }
  std::size_t least = rng.chance(0.5) ? 344 : 150;
  for (auto* s : {&p.a, &p.b}) {
    bool any = false;
    while (s->m.f.size() < least && (!any || rng.chance(0.8))) {
      s->m = subdivided(s->m);
      any = true;
    }
    if (any) refresh(*s);
  }
  p.cls = "large-" + p.cls;
  return p;
}

struct Gen_options {
  bool open{true};
  bool chained{true};
  bool extreme{true};
  double large{0.01};
};

inline Pair gen_pair(Rng& rng, const Gen_options& o = {}) {
  Pair p;
  double r = rng.unit();
  bool big = rng.chance(0.15);
  if (rng.chance(o.large)) {
    p = gen_large(rng);
  } else if (o.open && r < 0.14) {
    p = gen_open(rng);
  } else if (o.chained && r < 0.22) {
    p = gen_chained(rng);
  } else if (r < 0.42) {
    p = gen_voxel_same(rng, big ? 4 : 3);
  } else if (r < 0.58) {
    p = gen_voxel_overlay(rng, big ? 4 : 2);
  } else if (r < 0.74) {
    p = gen_hulls(rng, big ? 14 : 8);
  } else if (r < 0.86) {
    p = gen_generic(rng, big ? 14 : 7);
  } else if (r < 0.93) {
    p = gen_components(rng);
  } else {
    p = gen_disjoint(rng);
  }
  if (rng.chance(0.2)) complement(p.a);
  if (rng.chance(0.2)) complement(p.b);
  if (o.extreme && !p.clipped && rng.chance(0.15)) {
    // Far from the origin, tiny or huge: exact in the kernel, hopeless for plain doubles.
    double s = std::ldexp(1.0, rng.range(-60, 60));
    double x = std::ldexp(static_cast<double>(rng.range(-1, 1)), rng.range(0, 40));
    double y = std::ldexp(static_cast<double>(rng.range(-1, 1)), rng.range(0, 40));
    for (auto* q : {&p.a, &p.b}) {
      scale_translate(q->m, FT(s), FT(s * x), FT(s * y), FT(0));
      refresh(*q);
    }
    p.cls += "+far";
  }
  for (auto* q : {&p.a, &p.b})
    if (rng.chance(0.7)) {
      scramble(q->m, rng);
      refresh(*q);
    }
  set_ids(p.a.m, 0);
  set_ids(p.b.m, 1000000);
  return p;
}
