// C11: the defect finder.
#pragma once

#include "defect_oracle.h"
#include "gen.h"
#include "props_bool.h"

#include <kigumi/Find_defects.h>

#include <thread>

namespace defects {

using Finder = kigumi::Find_defects<K, FD>;

inline Mesh arbitrary_mesh(Rng& rng) {
  Mesh m;
  int nv = rng.range(1, rng.chance(0.2) ? 40 : 12);
  int style = rng.range(0, 4);
  int r = rng.range(1, 3);
  double s = rng.chance(0.2) ? std::ldexp(1.0, rng.range(-200, 200)) : 1;
  for (int i = 0; i < nv; ++i) {
    auto x = [&]() -> FT {
      switch (style) {
        case 0: return FT(s * rng.range(0, r));
        case 1: return FT(s * rng.unit());
        case 2: return FT(rng.range(0, 6)) / FT(3);
        case 3: return rng.chance(0.5) ? FT(rng.chance(0.5) ? 0.0 : -0.0) : FT(rng.range(-r, r));
        default: return FT(1e16) + FT(rng.range(0, 3)) / FT(rng.range(1, 3));
      }
    };
    m.v.push_back(P{x(), x(), style == 2 ? FT(0) : x()});
    if (rng.chance(0.15)) m.v.push_back(m.v[rng.below(m.v.size())]);
  }
  int nf = rng.range(0, rng.chance(0.2) ? 40 : 10);
  for (int i = 0; i < nf; ++i) {
    auto k = [&] { return static_cast<std::size_t>(rng.below(m.v.size())); };
    std::array<std::size_t, 3> t{k(), k(), k()};
    for (int tries = 0; tries < 3 && repeats(t); ++tries) t = {k(), k(), k()};
    if (i > 0 && rng.chance(0.5)) {  // next to a former face
      const auto& o = m.f[rng.below(m.f.size())];
      t = {o[1], o[0], k()};
      if (rng.chance(0.2)) std::swap(t[0], t[1]);
      if (rng.chance(0.1)) t[2] = o[2];
    }
    m.f.push_back(t);
  }
  return m;
}

// Many faces around one vertex or one edge.
inline Mesh fan_mesh(Rng& rng) {
  Mesh m;
  int n = rng.range(3, 14);
  bool edge = rng.chance(0.3);
  m.v.push_back(P{0, 0, 0});
  m.v.push_back(P{0, 0, edge ? 1 : -1});
  for (int i = 0; i < n; ++i) {
    double a = 6.283185307179586 * i / n;
    m.v.push_back(P{std::cos(a), std::sin(a), edge ? 0.5 : rng.range(0, 1) * 0.25});
  }
  auto rim = [&](int i) { return static_cast<std::size_t>(2 + (i % n)); };
  for (int i = 0; i < n; ++i) {
    if (rng.chance(0.05)) continue;
    if (edge) {
      m.add(0, 1, rim(i));
    } else {
      m.add(0, rim(i), rim(i + 1));
      if (rng.chance(0.3)) m.add(1, rim(i + 1), rim(i));
    }
    if (rng.chance(0.05)) std::swap(m.f.back()[0], m.f.back()[1]);
  }
  if (rng.chance(0.2)) m.add(0, rim(0), rim(rng.range(1, n - 1)));
  return m;
}

inline void damage(Rng& rng, Mesh& m) {
  int n = rng.range(0, 3);
  for (int i = 0; i < n && !m.f.empty(); ++i) {
    auto f = rng.below(m.f.size());
    auto v = rng.below(m.v.size());
    switch (rng.below(9)) {
      case 0: m.f.erase(m.f.begin() + static_cast<long>(f)); break;
      case 1: std::swap(m.f[f][0], m.f[f][1]); break;
      case 2: m.f.push_back(m.f[f]); break;
      case 3: m.v[v] = m.v[rng.below(m.v.size())]; break;  // pinched
      case 4: m.v[v] = m.v[v] + V3{FT(rng.range(-1, 1)), FT(rng.range(-1, 1)), FT(rng.range(-1, 1)) / FT(2)}; break;
      case 5: m.f[f][rng.below(3)] = v; break;
      case 6: m.v.push_back(m.v[v]); break;  // unused
      case 7: {                              // every face with its own vertices
        Mesh r;
        for (auto& t : m.f) {
          for (auto x : t) r.v.push_back(m.v[x]);
          r.add(r.v.size() - 3, r.v.size() - 2, r.v.size() - 1);
        }
        m = std::move(r);
        break;
      }
      default: {  // flattened: a vertex on the middle of the opposite edge
        auto& t = m.f[f];
        m.v[t[0]] = CGAL::midpoint(m.v[t[1]], m.v[t[2]]);
      }
    }
  }
}

inline Mesh random_mesh(Rng& rng, std::string& cls) {
  Mesh m;
  double r = rng.unit();
  if (r < 0.35) {
    cls = "arbitrary";
    m = arbitrary_mesh(rng);
  } else if (r < 0.45) {
    cls = "fan";
    m = fan_mesh(rng);
    damage(rng, m);
  } else {
    Gen_options o;
    o.large = 0.003;
    auto p = gen_pair(rng, o);
    cls = r < 0.65 ? "solid" : r < 0.8 ? "damaged" : "two_solids";
    m = cls == "two_solids" ? merged(p.a.m, p.b.m) : std::move(p.a.m);
    m.id.clear();
    if (cls != "solid") damage(rng, m);
  }
  if (rng.chance(0.5)) {
    m.id.clear();
    scramble(m, rng);
  }
  return m;
}

struct Lists {
  std::vector<std::size_t> isolated, bad_vertices, trivial, flat, overlapping;
  std::vector<std::array<std::size_t, 2>> boundary, inconsistent, non_manifold;
  bool operator==(const Lists&) const = default;
};

inline Lists lists_of(const Finder& d) {
  Lists l;
  auto one = [](const auto& from, auto& to) {
    for (auto x : from) to.push_back(x.idx());
    std::sort(to.begin(), to.end());
  };
  auto two = [](const auto& from, auto& to) {
    for (auto& e : from) to.push_back({std::min(e[0].idx(), e[1].idx()), std::max(e[0].idx(), e[1].idx())});
    std::sort(to.begin(), to.end());
  };
  one(d.isolated_vertices(), l.isolated);
  one(d.non_manifold_vertices(), l.bad_vertices);
  one(d.trivial_degenerate_faces(), l.trivial);
  one(d.non_trivial_degenerate_faces(), l.flat);
  one(d.overlapping_faces(), l.overlapping);
  two(d.boundary_edges(), l.boundary);
  two(d.inconsistent_edges(), l.inconsistent);
  two(d.non_manifold_edges(), l.non_manifold);
  return l;
}

inline std::string show(std::size_t x) { return std::to_string(x); }
inline std::string show(const std::array<std::size_t, 2>& e) { return fmt("%zu-%zu", e[0], e[1]); }

template <class T>
std::string compare(const char* what, const std::vector<T>& got, const std::set<T>& want) {
  for (std::size_t i = 1; i < got.size(); ++i)
    if (got[i] == got[i - 1]) return std::string{what} + ": " + show(got[i]) + " is listed twice";
  for (auto& x : got)
    if (!want.contains(x)) return std::string{what} + ": " + show(x) + " is listed and is none";
  for (auto& x : want)
    if (!std::binary_search(got.begin(), got.end(), x)) return std::string{what} + ": " + show(x) + " is not listed";
  return {};
}

// The lists against the truth. The indices are those of the truth's merged mesh.
inline std::string judge(const Lists& l, const Defect_truth& t) {
  std::string e;
  auto check = [&](const char* what, const auto& got, const auto& want) {
    if (e.empty()) e = compare(what, got, want);
    rep().count(std::string{"found."} + what, static_cast<long>(want.size()));
  };
  check("isolated_vertices", l.isolated, t.isolated);
  check("non_manifold_vertices", l.bad_vertices, t.bad_vertices);
  check("boundary_edges", l.boundary, t.boundary);
  check("inconsistent_edges", l.inconsistent, t.inconsistent);
  check("non_manifold_edges", l.non_manifold, t.non_manifold);
  check("trivial_degenerate_faces", l.trivial, t.trivial);
  check("non_trivial_degenerate_faces", l.flat, t.flat);
  if (!e.empty()) return e;
  std::set<std::size_t> any;
  for (auto& p : t.overlaps) any.insert(p.begin(), p.end());
  std::set<std::size_t> got(l.overlapping.begin(), l.overlapping.end());
  if (got.size() != l.overlapping.size()) return "overlapping_faces: a face is listed twice";
  for (auto f : got)
    if (!any.contains(f)) return fmt("overlapping_faces: %zu is listed and meets no other face", f);
  for (auto& p : t.overlaps)
    if (!got.contains(p[0]) && !got.contains(p[1])) return fmt("overlapping_faces: neither %zu nor %zu is listed", p[0], p[1]);
  rep().count("found.overlapping_pairs", static_cast<long>(t.overlaps.size()));
  rep().count("found.overlapping_faces", static_cast<long>(got.size()));
  return {};
}

// The mesh the indices refer to is the input with vertices merged; returns how it differs.
inline std::string same_merged(const Soup& s, const Mesh& input, Mesh& got) {
  if (!from_soup(s, got)) return "a face index is out of range";
  if (got.f.size() != input.f.size()) return fmt("%zu faces became %zu", input.f.size(), got.f.size());
  for (std::size_t i = 0; i < got.f.size(); ++i)
    for (int k = 0; k < 3; ++k)
      if (got.v[got.f[i][k]] != input.v[input.f[i][k]]) return fmt("face %zu changed", i);
  auto want = merged_vertices(input);
  auto again = merged_vertices(got);
  if (again.v.size() != got.v.size()) return "vertices with equal coordinates are left";
  if (want.v.size() != got.v.size()) return fmt("%zu distinct vertices became %zu", want.v.size(), got.v.size());
  auto all = got.v;
  std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return CGAL::compare_xyz(a, b) == CGAL::SMALLER; });
  std::sort(want.v.begin(), want.v.end(), [](auto& a, auto& b) { return CGAL::compare_xyz(a, b) == CGAL::SMALLER; });
  for (std::size_t i = 0; i < all.size(); ++i)
    if (all[i] != want.v[i]) return "a vertex changed";
  return {};
}

inline void case_defects(Case_ctx& c) {
  Rng& rng = c.rng;
  std::string cls;
  auto m = random_mesh(rng, cls);
  c.sig = mesh_sig(m);
  rep().count("class." + cls);
  rep().count("faces", static_cast<long>(m.f.size()));
  if (c.idx % 37 == 0) rep().sample(cls + " " + mesh_text(m));
  auto complain = [&](const char* key, const std::string& e) { rep().violation(key, e + ": " + cls + " " + mesh_text(m, 60)); };
  std::vector<std::size_t> nts{1, 2, 3, 8};
  rng.shuffle(nts);
  nts.resize(2);
  auto soup = to_soup(m);
  std::optional<Lists> first;
  for (auto nt : nts) {
    kigumi::Threading_context ctx{Thread_setting{nt}.o};
    Finder d{soup};
    Mesh merged;
    auto e = same_merged(d.triangle_soup(), m, merged);
    if (!e.empty()) return complain("merging", e);
    auto l = lists_of(d);
    if (first && !(l == *first)) return complain("threads", fmt("other defects with %zu threads", nt));
    rep().count(fmt("runs_with_threads.%zu", nt));
    if (first) continue;
    first = l;
    e = judge(l, find_defects_by_definition(merged));
    if (!e.empty()) return complain(e.substr(0, e.find(':')).c_str(), e);
  }
  Mesh now;
  if (!from_soup(soup, now) || now.v != m.v || now.f != m.f) return complain("operand", "the search changed the mesh");
  c.nontrivial = true;
}

}  // namespace defects
