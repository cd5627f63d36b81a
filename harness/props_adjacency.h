// C23: Faces around edges and faces.
#pragma once

#include "hooks.h"
#include "props_bool.h"

#include <kigumi/Triangle_mesh.h>

#include <utility>

inline void case_adjacency(Case_ctx& c) {
  auto& rng = c.rng;
  hk::nprocs = 8;
  auto nt = random_threads(rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  bool large = rng.chance(0.15);
  auto nv = static_cast<std::size_t>(rng.chance(0.2) ? rng.range(3, 5) : rng.range(3, large ? 400 : 30));
  auto nf = static_cast<std::size_t>(rng.chance(0.05) ? 0 : rng.range(1, large ? 1500 : 60));
  auto unused_front = static_cast<std::size_t>(rng.chance(0.2) ? rng.range(1, 3) : 0);
  auto unused_back = static_cast<std::size_t>(rng.chance(0.3) ? rng.range(1, 3) : 0);
  auto total = unused_front + nv + unused_back;
  std::vector<std::array<std::size_t, 3>> faces;
  auto random_face = [&] {
    std::array<std::size_t, 3> f;
    do {
      for (auto& x : f) x = unused_front + (rng.chance(0.2) ? 0 : rng.below(nv));
    } while (f[0] == f[1] || f[1] == f[2] || f[2] == f[0]);
    return f;
  };
  bool strips = rng.chance(0.3);
  for (std::size_t i = 0; i < nf; ++i) {
    if (!faces.empty() && rng.chance(0.1)) {
      faces.push_back(rng.pick(faces));  // duplicates, perhaps reversed
      if (rng.chance(0.5)) std::swap(faces.back()[0], faces.back()[1]);
    } else if (strips && !faces.empty()) {
      auto f = rng.pick(faces);
      auto v = unused_front + rng.below(nv);
      if (v != f[0] && v != f[1]) faces.push_back({f[1], f[0], v});
      else faces.push_back(random_face());
    } else {
      faces.push_back(random_face());
    }
  }
  nf = faces.size();
  using M = kigumi::Triangle_mesh<K, FD>;
  auto pt = [&](std::size_t i) { return P{FT(static_cast<int>(i)), FT(static_cast<int>(i * i % 101)), FT(static_cast<int>(i % 7))}; };
  M m;
  auto face_of = [&](const std::array<std::size_t, 3>& f) { return kigumi::Face{Vertex_index{f[0]}, Vertex_index{f[1]}, Vertex_index{f[2]}}; };
  int how = rng.range(0, 3);
  hk::begin(rng.next(), rng.chance(0.5));
  if (how == 0) {
    std::vector<P> points;
    std::vector<kigumi::Face> fs;
    for (std::size_t i = 0; i < total; ++i) points.push_back(pt(i));
    for (auto& f : faces) fs.push_back(face_of(f));
    std::vector<FD> data;
    for (std::size_t i = 0; i < nf; ++i) data.emplace_back(static_cast<std::int32_t>(i));
    m = M{points, fs, data};
    m.finalize();
  } else {
    for (std::size_t i = 0; i < total; ++i) m.add_vertex(pt(i));
    for (std::size_t i = 0; i < nf; ++i) {
      auto fi = m.add_face(face_of(faces[i]));
      m.data(fi) = FD{static_cast<std::int32_t>(i)};
      if (how == 3 && i == nf / 2) m.finalize();  // indexed, extended, and indexed again
    }
    m.finalize();
    if (how == 2) {
      M copy{m};
      M other;
      other = copy;
      m = std::move(other);
    }
  }
  hk::end();
  c.sig = mix64(nf, total);
  for (auto& f : faces) c.sig = mix64(c.sig, f[0] * 1000003 + f[1] * 1009 + f[2]);
  rep().count("meshes");
  rep().count("faces", static_cast<long>(nf));
  std::string text = fmt("%zu vertices, %zu unused after them, %zu faces, built in way %d, %zu threads:", total, unused_back, nf, how, nt);
  for (std::size_t i = 0; i < std::min<std::size_t>(nf, 12); ++i) text += fmt(" (%zu,%zu,%zu)", faces[i][0], faces[i][1], faces[i][2]);
  if (c.idx % 37 == 0) rep().sample(text);
  if (m.num_faces() != nf || m.num_vertices() != total) {
    rep().violation("mesh", "the mesh has lost faces or vertices: " + text);
    return;
  }
  // What was put in.
  for (int q = 0; q < 6; ++q) {
    auto v = rng.below(total);
    bool ok = m.point(Vertex_index{v}) == pt(v);
    if (nf > 0) {
      auto k = rng.below(nf);
      kigumi::Face_index fi{k};
      auto t = m.triangle(fi);
      ok = ok && m.face(fi) == face_of(faces[k]) && m.data(fi) == FD{static_cast<std::int32_t>(k)};
      for (int s = 0; s < 3; ++s) ok = ok && t[s] == pt(faces[k][static_cast<std::size_t>(s)]);
    }
    if (!ok) {
      rep().violation("mesh", "a point, face, triangle or datum is not the one that was put in: " + text);
      return;
    }
  }
  auto has = [](const std::array<std::size_t, 3>& f, std::size_t v) { return f[0] == v || f[1] == v || f[2] == v; };
  auto around = [&](std::size_t i, std::size_t j) {
    std::vector<std::size_t> r;
    for (std::size_t k = 0; k < nf; ++k)
      if (has(faces[k], i) && has(faces[k], j)) r.push_back(k);
    return r;
  };
  auto list = [](auto&& range) {
    std::vector<std::size_t> r;
    for (auto f : range) {
      r.push_back(f.idx());
      if (r.size() > 100000) break;
    }
    std::sort(r.begin(), r.end());
    return r;
  };
  auto show = [](const std::vector<std::size_t>& v) {
    std::string s = "{";
    for (std::size_t i = 0; i < std::min<std::size_t>(v.size(), 20); ++i) s += fmt(" %zu", v[i]);
    return s + " }";
  };
  int queries = large ? 40 : 60;
  for (int q = 0; q < queries; ++q) {
    std::size_t i;
    std::size_t j;
    if (nf > 0 && rng.chance(0.7)) {
      auto& f = rng.pick(faces);
      auto k = rng.below(3);
      i = f[k];
      j = f[(k + 1) % 3];
    } else {
      i = rng.below(total);
      j = rng.below(total);
      if (i == j) continue;
    }
    kigumi::Edge e{Vertex_index{i}, Vertex_index{j}};
    if (rng.chance(0.5)) e = kigumi::make_edge(e[0], e[1]);
    auto got = list(m.faces_around_edge(e));
    auto want = around(i, j);
    rep().count("edge_queries");
    rep().distinct("faces_per_edge", want.size());
    if (got != want) {
      rep().violation("edge", fmt("the faces around the edge (%zu, %zu) are ", i, j) + show(want) + " but " + show(got) + " are listed: " + text);
      return;
    }
  }
  for (int q = 0; q < queries && nf > 0; ++q) {
    auto k = rng.below(nf);
    kigumi::Edge_set border;
    auto border_edge = [&](std::size_t x, std::size_t y) { border.insert(kigumi::make_edge(Vertex_index{x}, Vertex_index{y})); };
    int density = rng.range(0, 3);
    bool cut[3];
    for (std::size_t s = 0; s < 3; ++s) {
      cut[s] = rng.below(4) < static_cast<std::uint64_t>(density);
      if (cut[s]) border_edge(faces[k][s], faces[k][(s + 1) % 3]);
    }
    if (rng.chance(0.5)) {
      auto x = rng.below(total);
      auto y = rng.below(total);
      bool own = has(faces[k], x) && has(faces[k], y);
      if (x != y && !own) border_edge(x, y);
    }
    std::vector<std::size_t> want;
    for (std::size_t s = 0; s < 3; ++s) {
      if (cut[s]) continue;
      for (auto x : around(faces[k][s], faces[k][(s + 1) % 3]))
        if (x != k) want.push_back(x);
    }
    std::sort(want.begin(), want.end());
    auto got = list(m.faces_around_face(kigumi::Face_index{k}, border));
    rep().count("face_queries");
    rep().distinct("faces_per_face", want.size());
    if (got != want) {
      rep().violation("face", fmt("the faces next to face %zu are ", k) + show(want) + " but " + show(got) + " are listed: " + text);
      return;
    }
  }
  if (rng.chance(0.1)) {
    auto soup = m.take_triangle_soup();
    bool ok = soup.num_vertices() == total && soup.num_faces() == nf;
    for (std::size_t v = 0; ok && v < total; ++v) ok = soup.point(Vertex_index{v}) == pt(v);
    for (std::size_t k = 0; ok && k < nf; ++k) {
      kigumi::Face_index fi{k};
      ok = soup.face(fi) == face_of(faces[k]) && soup.data(fi) == FD{static_cast<std::int32_t>(k)};
    }
    if (!ok) rep().violation("mesh", "the soup taken from the mesh is another mesh: " + text);
    rep().count("soups_taken");
  }
  c.nontrivial = true;
}
