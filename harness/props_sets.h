// C03, C04, C05, C06, C21, C22: what results are, as sets and with data.
#pragma once

#include "props_bool.h"
#include "region_eq.h"
#include "warn_gen.h"

inline Region special_region(bool full) { return full ? Region::full() : Region::empty(); }

// ---------------------------------------------------------------------------------------------
// C03

struct Voxels {
  Grid g;
  Cells cells;
  bool outside{false};
  bool value(std::size_t i) const { return cells[i] != 0; }
  // -1: bounded by faces; 0: empty; 1: everything
  int kind() const {
    for (auto c : cells)
      if ((c != 0) != outside) return -1;
    return outside ? 1 : 0;
  }
};

// A voxel set that is neither empty nor everything, as a region.
inline Mesh voxels_mesh(const Voxels& v, Rng& rng) {
  Cells c = v.cells;
  if (v.outside)
    for (auto& x : c) x = static_cast<char>(!x);
  auto m = voxel_mesh(v.g, c, rng, rng.range(0, 2));
  if (v.outside) m = flipped(m);
  if (rng.chance(0.5)) scramble(m, rng);
  return m;
}

inline P cell_point(const Grid& g, std::size_t idx, Rng& rng) {
  auto n0 = static_cast<std::size_t>(g.n(0));
  auto n1 = static_cast<std::size_t>(g.n(1));
  std::size_t at[3] = {idx % n0, idx / n0 % n1, idx / (n0 * n1)};
  FT c[3];
  for (int a = 0; a < 3; ++a) {
    auto w = FT(rng.range(1, 15)) / FT(16);
    c[a] = g.c[a][at[a]] * (FT(1) - w) + g.c[a][at[a] + 1] * w;
  }
  return {c[0], c[1], c[2]};
}

struct Set_region {
  Voxels v;
  Region r;
};

inline std::string check_kind(const Set_region& s, Rng& rng) {
  const auto& r = s.r;
  int k = s.v.kind();
  int e = r.is_empty() + 2 * r.is_full() + 4 * r.is_empty_or_full();
  int want = k == 0 ? 5 : k == 1 ? 6 : 0;
  rep().count(k == 0 ? "empty_results" : k == 1 ? "full_results" : "bounded_results");
  if (e != want)
    return fmt("should be %s but is_empty=%d is_full=%d is_empty_or_full=%d", k == 0 ? "empty" : k == 1 ? "full" : "bounded",
               r.is_empty(), r.is_full(), r.is_empty_or_full());
  if ((k == -1) != (r.boundary().num_faces() != 0)) return fmt("has %zu faces", r.boundary().num_faces());
  if (k != -1 && r.boundary().num_vertices() != 0) return fmt("has %zu vertices", r.boundary().num_vertices());
  for (int i = 0; i < 4; ++i) {
    P p;
    bool in;
    if (rng.chance(0.25)) {
      p = P{s.v.g.c[0].back() + FT(rng.range(1, 100)), FT(rng.real(-50, 50)), FT(rng.real(-50, 50))};
      in = s.v.outside;
    } else {
      auto idx = rng.below(s.v.cells.size());
      p = cell_point(s.v.g, idx, rng);
      in = s.v.value(idx);
    }
    rep().count("memberships");
    auto side = r.bounded_side(p);
    if (side != (in ? CGAL::ON_BOUNDED_SIDE : CGAL::ON_UNBOUNDED_SIDE))
      return fmt("%s should be %s but bounded_side is %d", point_text(p).c_str(), in ? "inside" : "outside", side);
  }
  return {};
}

inline void case_special(Case_ctx& c) {
  auto nt = random_threads(c.rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  auto g = random_grid(c.rng, c.rng.chance(0.2) ? 3 : 2);
  auto ncells = static_cast<std::size_t>(g.n(0) * g.n(1) * g.n(2));
  auto special = [&](bool full) {
    Set_region s{{g, Cells(ncells, full), full}, special_region(full)};
    if (!full && c.rng.chance(0.3)) s.r = Region{};
    return s;
  };
  auto ordinary = [&](Voxels v) {
    Set_region s{v, {}};
    auto m = voxels_mesh(v, c.rng);
    set_ids(m, 0);
    s.r = to_region(m);
    return s;
  };
  auto random_set = [&]() {
    Voxels v{g, random_cells(g, c.rng), c.rng.chance(0.3)};
    if (v.kind() != -1) v.outside = !v.outside;
    return v;
  };
  std::string text = fmt("grid %dx%dx%d", g.n(0), g.n(1), g.n(2));
  std::vector<Set_region> pool;
  int scenario = c.rng.range(0, 5);
  auto a = random_set();
  if (scenario == 0) {
    pool = {special(false), special(true), special(false), special(true)};
  } else if (scenario == 1) {
    pool = {ordinary(a), special(false), special(true)};
  } else {
    Voxels b = a;
    if (scenario == 2) {
      // equal
    } else if (scenario == 3) {
      for (auto& x : b.cells) x = static_cast<char>(!x);
      b.outside = !b.outside;
    } else if (scenario == 4) {  // nested, either way, of either sign
      for (auto& x : b.cells)
        if (c.rng.chance(0.5)) x = 1;
      if (c.rng.chance(0.3)) b.outside = true;
      if (b.kind() != -1) b = a;
    } else {
      b = random_set();
      if (c.rng.chance(0.5)) {  // disjoint or covering
        for (std::size_t i = 0; i < ncells; ++i)
          if (a.cells[i]) b.cells[i] = 0;
        if (a.outside) b.outside = false;
        if (b.kind() != -1) b = random_set();
      }
    }
    pool = {ordinary(a), ordinary(b)};
    if (c.rng.chance(0.5)) pool.push_back(special(c.rng.chance(0.5)));
  }
  auto cells_text = [&](const Voxels& v) {
    std::string t = v.outside ? "~" : "";
    for (auto x : v.cells) t += x ? '1' : '0';
    return t;
  };
  text += fmt(" scenario %d:", scenario);
  for (auto& s : pool) text += " " + cells_text(s.v);
  std::uint64_t sig = hash_str(text);
  for (auto& x : g.c)
    for (auto& y : x) sig = mix64(sig, std::hash<double>{}(CGAL::to_double(y)));
  c.sig = sig;
  rep().count(fmt("scenario.%d", scenario));
  if (c.idx % 37 == 0) rep().sample(text);
  if (c.verbose) std::fprintf(stderr, "%s\n", text.c_str());
  auto npool = pool.size();
  for (std::size_t round = 0; round < (c.thorough ? 8 : 4); ++round) {
    auto i = c.rng.below(pool.size());
    auto j = c.rng.below(pool.size());
    if (round == 0) {
      i = 0;
      j = npool > 1 ? 1 : 0;
      if (c.rng.chance(0.5)) std::swap(i, j);
    }
    Builder b{pool[i].r, pool[j].r};
    std::vector<Set_region> made;
    for (auto op : all_ops()) {
      Set_region s{{g, Cells(ncells, 0), apply_op(op, pool[i].v.outside, pool[j].v.outside)}, {}};
      for (std::size_t k = 0; k < ncells; ++k) s.v.cells[k] = apply_op(op, pool[i].v.value(k), pool[j].v.value(k));
      try {
        s.r = b(op, c.rng.chance(0.5));
      } catch (const std::exception& e) {
        rep().violation("throw", fmt("op %s of %s and %s throws %s: ", op_name(op), cells_text(pool[i].v).c_str(),
                                     cells_text(pool[j].v).c_str(), e.what()) + text);
        return;
      }
      rep().count("results");
      auto e = check_kind(s, c.rng);
      if (!e.empty()) {
        rep().violation("kind", fmt("op %s of %s and %s ", op_name(op), cells_text(pool[i].v).c_str(),
                                    cells_text(pool[j].v).c_str()) + e + ": " + text);
        return;
      }
      made.push_back(std::move(s));
    }
    // Results become operands, special ones first of all.
    for (int n = 0; n < 3; ++n) {
      auto& s = made[c.rng.below(made.size())];
      if (pool.size() < 12) pool.push_back(s);
    }
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------
// C04

inline void case_open(Case_ctx& c) {
  Pair p = gen_open(c.rng);
  if (c.rng.chance(0.2)) complement(p.a);
  if (c.rng.chance(0.2)) complement(p.b);
  for (auto* q : {&p.a, &p.b})
    if (c.rng.chance(0.7)) {
      scramble(q->m, c.rng);
      refresh(*q);
    }
  set_ids(p.a.m, 0);
  set_ids(p.b.m, 1000000);
  auto validity = validity_of(p);
  if (c.rng.chance(0.25))
    for (const auto* s : {&p.a, &p.b}) {
      auto e = find_invalidity(s->m, s->kind == Solid::OPEN ? validity : Validity_options{});
      if (!e.empty()) throw Generator_error(p.cls + ": " + e);
    }
  note_pair(c, p);
  auto nt = random_threads(c.rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  auto ra = to_region(p.a.m);
  auto rb = to_region(p.b.m);
  Builder b{ra, rb};
  Membership ms{p, c.rng, {}, {}};
  int n = c.thorough ? 20 : 8;
  for (int i = 0; i < n; ++i) ms.add(random_point_in(p, c.rng));
  for (int i = 0; i < n; ++i) {
    const auto& s = i % 2 == 0 ? p.a : p.b;
    ms.add(near_face(s.m, c.rng.below(s.m.f.size()), c.rng, c.rng.chance(0.5) ? 1e-5 : -1e-5));
  }
  long checked = 0;
  auto ops = all_ops();
  c.rng.shuffle(ops);
  std::size_t nth = 0;
  std::optional<Result> kept;
  for (auto op : ops) {
    auto r = take_result(b, op, c.rng.chance(0.5));
    validity.check_pairs = nth++ < 2;
    auto e = r.ok ? find_invalidity(r.m, validity) : std::string{"index: a face index is out of range"};
    if (!e.empty()) {
      rep().violation(e.substr(0, e.find(':')), fmt("op %s: ", op_name(op)) + e + ": " + pair_text(p));
      return;
    }
    auto s = result_solid(r, true);
    e = check_membership(r, s, ms, c.rng, checked);
    if (e.empty()) e = check_faces(r, p, s, c.rng, c.thorough ? 12 : 5, checked);
    rep().count("results");
    if (!e.empty()) {
      rep().violation("membership", e + ": " + pair_text(p));
      return;
    }
    // The library's own idea of where points are agrees.
    for (int i = 0; i < 3 && !ms.pts.empty(); ++i) {
      auto k = c.rng.below(ms.pts.size());
      auto [la, lb] = ms.truth[k];
      if (la == Loc::ON || lb == Loc::ON) continue;
      auto side = r.region.bounded_side(ms.pts[k]);
      bool want = apply_op(op, la == Loc::IN, lb == Loc::IN);
      if (side != (want ? CGAL::ON_BOUNDED_SIDE : CGAL::ON_UNBOUNDED_SIDE)) {
        rep().violation("side", fmt("op %s: bounded_side(%s)=%d: ", op_name(op), point_text(ms.pts[k]).c_str(), side) + pair_text(p));
        return;
      }
      ++checked;
    }
    if (!r.region.is_empty_or_full() && (!kept || c.rng.chance(0.3))) kept = std::move(r);
  }
  // A result as an operand, with one of the operands.
  if (kept) {
    bool with_a = c.rng.chance(0.5);
    bool first = c.rng.chance(0.5);
    const auto& other = with_a ? ra : rb;
    Builder b2 = first ? Builder{kept->region, other} : Builder{other, kept->region};
    for (auto op2 : some_ops(c.rng, 4)) {
      auto r = take_result(b2, op2, c.rng.chance(0.5));
      rep().count("results_of_results");
      if (!r.ok) {
        rep().violation("index", "a face index is out of range: " + pair_text(p));
        return;
      }
      auto s = result_solid(r, true);
      for (std::size_t k = 0; k < ms.pts.size(); ++k) {
        auto [la, lb] = ms.truth[k];
        if (la == Loc::ON || lb == Loc::ON) continue;
        bool x = apply_op(kept->op, la == Loc::IN, lb == Loc::IN);
        bool y = (with_a ? la : lb) == Loc::IN;
        bool want = first ? apply_op(op2, x, y) : apply_op(op2, y, x);
        auto got = s.locate(ms.pts[k], c.rng);
        ++checked;
        if (!got || *got == Loc::ON || (*got == Loc::IN) != want) {
          rep().violation("membership", fmt("op %s of the result of op %s and operand %s (result first: %d): %s should be %s: ",
                                            op_name(op2), op_name(kept->op), with_a ? "A" : "B", first,
                                            point_text(ms.pts[k]).c_str(), want ? "inside" : "outside") + pair_text(p));
          return;
        }
      }
    }
  }
  rep().count("memberships", checked);
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------
// C05

// Every face is inside the face its data name, with the orientation the operator calls for.
inline std::string check_data(const Mesh& r, const Pair& p, Op op, bool prefer_first, Rng& rng, long& both, long& inverted) {
  for (std::size_t i = 0; i < r.f.size(); ++i) {
    int id = r.id[i];
    if (id == Mesh::DAMAGED) return fmt("op %s: the data of face %zu are damaged", op_name(op), i);
    bool first = id < 1000000;
    const auto& s = first ? p.a : p.b;
    const auto& o = first ? p.b : p.a;
    auto k = static_cast<std::size_t>(first ? id : id - 1000000);
    if (id < 0 || k >= s.m.f.size()) return fmt("op %s: face %zu has the data %d of no face", op_name(op), i, id);
    for (auto x : r.f[i])
      if (!in_face(s.m, k, r.v[x]))
        return fmt("op %s: face %zu has the data %d of a face that does not contain it", op_name(op), i, id);
    auto g = CGAL::centroid(r.v[r.f[i][0]], r.v[r.f[i][1]], r.v[r.f[i][2]]);
    // Whether the other operand is to be combined as in or out, or coincides with s or its complement.
    std::function<bool(bool)> other;
    bool coincides = false;
    if (o.kind == Solid::CLOSED || o.kind == Solid::OPEN) {
      auto gb = g.bbox();
      for (std::size_t j = 0; j < o.m.f.size() && !coincides; ++j)
        if (CGAL::do_overlap(o.boxes.b[j], gb) && in_face(o.m, j, g)) {
          coincides = true;
          bool same = area_vector(o.m, j) * area_vector(s.m, k) > 0;
          other = [same](bool x) { return x == same; };
        }
    }
    if (coincides) {
      ++both;
      if (first != prefer_first)
        return fmt("op %s: face %zu, where both boundaries coincide, has the data %d, with prefer_first=%d", op_name(op), i,
                   id, prefer_first);
    } else {
      auto l = o.locate(g, rng);
      require_bounding(p, l.has_value());
      bool in = *l == Loc::IN;
      other = [in](bool) { return in; };
    }
    auto value = [&](bool x) { return first ? apply_op(op, x, other(x)) : apply_op(op, other(x), x); };
    if (value(true) == value(false))
      return fmt("op %s: face %zu with the data %d separates nothing", op_name(op), i, id);
    bool want_inverted = value(false);
    inverted += want_inverted;
    if ((area_vector(r, i) * area_vector(s.m, k) < 0) != want_inverted)
      return fmt("op %s: face %zu with the data %d should %shave been turned", op_name(op), i, id, want_inverted ? "" : "not ");
  }
  return {};
}

inline void case_data(Case_ctx& c) {
  Gen_options go;
  go.chained = false;
  Pair p;
  if (c.rng.chance(0.12)) {  // one operand is the empty set or the universe
    p = gen_pair(c.rng, {false, false, true});
    (c.rng.chance(0.5) ? p.a : p.b) = Solid::special(c.rng.chance(0.5));
    p.cls = "special";
  } else {
    p = checked_pair(c, go);
  }
  note_pair(c, p);
  auto nt = random_threads(c.rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  auto make = [](const Solid& s) {
    return s.kind == Solid::EMPTY ? Region::empty() : s.kind == Solid::FULL ? Region::full() : to_region(s.m);
  };
  auto ra = make(p.a);
  auto rb = make(p.b);
  if (c.rng.chance(0.3)) {  // through copies and moves
    Region x = ra;
    Region y{std::move(x)};
    Region z = rb;
    z = y;
    ra = std::move(z);
    rb = Region{rb};
  }
  Builder b{ra, rb};
  long both = 0;
  long inverted = 0;
  long faces = 0;
  for (auto op : some_ops(c.rng, c.thorough ? 16 : 8)) {
    bool prefer_first = c.rng.chance(0.5);
    Region r;
    Mesh m;
    r = b(op, prefer_first);
    if (!from_soup(r.boundary(), m)) {
      rep().violation("index", "a face index is out of range: " + pair_text(p));
      return;
    }
    faces += static_cast<long>(m.f.size());
    auto e = check_data(m, p, op, prefer_first, c.rng, both, inverted);
    if (!e.empty()) {
      rep().violation("data", e + ": " + pair_text(p));
      return;
    }
    // Nothing is lost on the way to other owners.
    Region copy{r};
    Region assigned;
    assigned = copy;
    Region moved{std::move(assigned)};
    std::stringstream ss;
    kigumi::kigumi_write<Region>(ss, moved);
    Region loaded;
    kigumi::kigumi_read<Region>(ss, loaded);
    for (const auto* q : {&copy, &moved, &loaded}) {
      Mesh n;
      e = from_soup(q->boundary(), n) ? same_mesh(m, n) : "a face index is out of range";
      if (!e.empty()) {
        rep().violation(q == &loaded ? "load" : "copy", fmt("op %s, after %s: ", op_name(op), q == &copy ? "copying" : q == &moved ? "assigning and moving" : "saving and loading") + e + ": " + pair_text(p));
        return;
      }
    }
    rep().count("results");
  }
  rep().count("faces_traced", faces);
  rep().count("faces_on_both", both);
  rep().count("faces_inverted", inverted);
  c.nontrivial = faces > 0;
}

// ---------------------------------------------------------------------------------------------
// C06

inline FT small_rational(Rng& rng) { return FT(rng.range(1, 7)) / FT(8); }

// A point in a special position relative to the mesh.
inline P special_point(const Mesh& m, const Boxes& bx, Rng& rng, int& kind) {
  kind = rng.range(0, 11);
  auto i = rng.below(m.f.size());
  auto t = m.f[i];
  std::rotate(t.begin(), t.begin() + rng.range(0, 2), t.end());
  const auto &a = m.v[t[0]], &b = m.v[t[1]], &d = m.v[t[2]];
  switch (kind) {
    case 0:
      return a;
    case 1: {
      auto w = small_rational(rng);
      return a + (b - a) * w;
    }
    case 2:
      return CGAL::barycenter(a, small_rational(rng), b, small_rational(rng), d, small_rational(rng));
    case 3:
      return CGAL::centroid(a, b, d);
    case 4:  // beyond an edge
      return a + (b - a) * (rng.chance(0.5) ? FT(rng.range(9, 30)) / FT(8) : FT(-rng.range(1, 20)) / FT(8));
    case 5:  // in the plane of a face
      return a + (b - a) * (FT(rng.range(-16, 24)) / FT(8)) + (d - a) * (FT(rng.range(-16, 24)) / FT(8));
    case 6: {  // in line with two vertices
      const auto& e = m.v[rng.below(m.v.size())];
      return a + (e - a) * (FT(rng.range(-8, 16)) / FT(8));
    }
    case 7: {  // in line with the centroid of a face and a vertex
      auto g = CGAL::centroid(a, b, d);
      const auto& e = m.v[rng.below(m.v.size())];
      return g + (e - g) * (FT(rng.range(-8, 24)) / FT(8));
    }
    case 8: {  // in line with the centroid of a face and a point of an edge
      auto g = CGAL::centroid(a, b, d);
      auto u = m.f[rng.below(m.f.size())];
      auto e = CGAL::midpoint(m.v[u[0]], m.v[u[1]]);
      return g + (e - g) * (FT(rng.range(-8, 24)) / FT(8));
    }
    case 9:
      return near_face(m, i, rng, rng.chance(0.5) ? std::ldexp(1.0, -rng.range(1, 60)) : -std::ldexp(1.0, -rng.range(1, 60)));
    case 10: {  // the middle of the box, or a simple fraction of it
      FT c[3];
      const double lo[3] = {bx.all.xmin(), bx.all.ymin(), bx.all.zmin()};
      const double hi[3] = {bx.all.xmax(), bx.all.ymax(), bx.all.zmax()};
      for (int k = 0; k < 3; ++k) {
        FT w = rng.chance(0.5) ? FT(1) / FT(2) : FT(rng.range(-2, 10)) / FT(8);
        c[k] = FT(lo[k]) * (FT(1) - w) + FT(hi[k]) * w;
      }
      return {c[0], c[1], c[2]};
    }
    default: {  // near an edge or a vertex
      auto w = rng.chance(0.5) ? FT(0) : small_rational(rng);
      auto q = a + (b - a) * w;
      double s = std::max({bx.all.xmax() - bx.all.xmin(), bx.all.ymax() - bx.all.ymin(), bx.all.zmax() - bx.all.zmin()}) *
                 std::ldexp(1.0, -rng.range(2, 40));
      return {q.x() + FT(s * rng.range(-1, 1)), q.y() + FT(s * rng.range(-1, 1)), q.z() + FT(s * rng.range(-1, 1))};
    }
  }
}

inline void case_side(Case_ctx& c) {
  auto p = checked_pair(c);
  note_pair(c, p);
  auto nt = random_threads(c.rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  Solid s;
  Region r;
  bool from_result = c.rng.chance(0.3);
  Op op = Op::I;
  if (from_result) {
    op = c.rng.pick(all_ops());
    Result q = take_result(Builder{to_region(p.a.m), to_region(p.b.m)}, op, true);
    if (!q.ok || q.region.is_empty_or_full()) {
      from_result = false;
    } else {
      if (!find_invalidity(q.m, validity_of(p)).empty()) return;  // reported by the checks of results
      s = result_solid(q, p.clipped);
      r = std::move(q.region);
    }
  }
  if (!from_result) {
    s = p.a;
    r = to_region(s.m);
  }
  // Copies answer like originals.
  if (c.rng.chance(0.2)) {
    Region x{r};
    r = std::move(x);
  }
  const char* names[] = {"vertex", "edge", "face", "centroid", "beyond_edge", "in_plane", "in_line", "behind_centroid",
                         "behind_edge", "close_to_face", "box_fraction", "close_to_edge", "random"};
  int n = c.thorough ? 100 : 40;
  long asked = 0;
  for (int i = 0; i < n; ++i) {
    int kind = 12;
    P q;
    if (i < 4) {
      q = random_point_in(p, c.rng);
    } else {
      q = special_point(s.m, s.boxes, c.rng, kind);
    }
    if (c.rng.chance(0.5)) q.exact();
    // Inside the clip, or on a face of the open mesh that reaches its wall.
    if (p.clipped && !inside_clip(p, q)) {
      if (!s.on_boundary(q)) continue;
    }
    auto want = s.locate(q, c.rng);
    require_bounding(p, want.has_value());
    CGAL::Bounded_side got;
    try {
      got = r.bounded_side(q);
    } catch (const std::exception& e) {
      rep().violation("throw", fmt("bounded_side(%s), a point of kind %s, throws %s; op %s, from a result: %d: ", point_text(q).c_str(),
                                   names[kind], e.what(), op_name(op), from_result) + pair_text(p));
      return;
    }
    ++asked;
    rep().count(std::string{"points."} + names[kind]);
    rep().count(*want == Loc::IN ? "inside" : *want == Loc::OUT ? "outside" : "on");
    auto expect = *want == Loc::IN ? CGAL::ON_BOUNDED_SIDE : *want == Loc::OUT ? CGAL::ON_UNBOUNDED_SIDE : CGAL::ON_BOUNDARY;
    if (got != expect) {
      rep().violation("side", fmt("bounded_side(%s), a point of kind %s, is %d but the point is %s; op %s, from a result: %d: ",
                                  point_text(q).c_str(), names[kind], got, loc_name(*want), op_name(op), from_result) + pair_text(p));
      return;
    }
  }
  c.nontrivial = asked > 0;
  rep().count("queries", asked);
}

// ---------------------------------------------------------------------------------------------
// C21

struct Expr {
  int leaf{-1};
  Op op{Op::O};
  std::unique_ptr<Expr> l, r;
  bool value(const std::vector<bool>& at) const {
    return leaf >= 0 ? at[static_cast<std::size_t>(leaf)] : apply_op(op, l->value(at), r->value(at));
  }
  Region build(const std::vector<Region>& base, Rng& rng) const {
    if (leaf >= 0) return base[static_cast<std::size_t>(leaf)];
    return Builder{l->build(base, rng), r->build(base, rng)}(op, rng.chance(0.5));
  }
  std::string text() const {
    return leaf >= 0 ? std::string(1, static_cast<char>('a' + leaf)) : std::string{"("} + l->text() + op_name(op) + r->text() + ")";
  }
};

using Ex = std::unique_ptr<Expr>;

inline Ex leaf(int i) {
  auto e = std::make_unique<Expr>();
  e->leaf = i;
  return e;
}

inline Ex node(Op op, Ex l, Ex r) {
  auto e = std::make_unique<Expr>();
  e->op = op;
  e->l = std::move(l);
  e->r = std::move(r);
  return e;
}

inline Ex random_expr(Rng& rng, int leaves, int depth) {
  if (depth == 0 || rng.chance(0.15)) return leaf(rng.range(0, leaves - 1));
  static const std::vector<Op> useful{Op::A, Op::A, Op::J, Op::K, Op::K, Op::L, Op::M, Op::E, Op::X, Op::D, Op::B, Op::C, Op::F, Op::G};
  return node(rng.pick(useful), random_expr(rng, leaves, depth - 1), random_expr(rng, leaves, depth - 1));
}

// Both sides of a law of set algebra, over the leaves x, y, z.
inline std::pair<Ex, Ex> random_law(Rng& rng, int leaves, int depth, int& which) {
  auto sub = [&](Rng r) { return random_expr(r, leaves, depth); };
  Rng rx{rng.next()};
  Rng ry{rng.next()};
  Rng rz{rng.next()};
  auto x = [&] { return sub(rx); };
  auto y = [&] { return sub(ry); };
  auto z = [&] { return sub(rz); };
  auto no = [&](Ex e) {
    return node(Op::F, std::move(e), leaf(rng.range(0, leaves - 1)));
  };
  which = rng.range(0, 11);
  switch (which) {
    case 0: return {no(node(Op::A, x(), y())), node(Op::K, no(x()), no(y()))};
    case 1: return {no(node(Op::K, x(), y())), node(Op::A, no(x()), no(y()))};
    case 2: return {node(Op::K, x(), node(Op::A, y(), z())), node(Op::A, node(Op::K, x(), y()), node(Op::K, x(), z()))};
    case 3: return {node(Op::A, x(), node(Op::K, y(), z())), node(Op::K, node(Op::A, x(), y()), node(Op::A, x(), z()))};
    case 4: return {node(Op::A, x(), node(Op::K, x(), y())), x()};
    case 5: return {node(Op::K, x(), node(Op::A, x(), y())), x()};
    case 6: return {no(no(x())), x()};
    case 7: return {node(Op::L, x(), y()), node(Op::K, x(), no(y()))};
    case 8: return {node(Op::J, x(), y()), node(Op::L, node(Op::A, x(), y()), node(Op::K, x(), y()))};
    case 9: return {node(Op::J, node(Op::J, x(), y()), z()), node(Op::J, x(), node(Op::J, y(), z()))};
    case 10: return {node(Op::J, node(Op::J, x(), y()), y()), x()};
    default: return {node(Op::L, x(), node(Op::A, y(), z())), node(Op::K, node(Op::L, x(), y()), node(Op::L, x(), z()))};
  }
}

inline Op swapped_op(Op op) {
  for (auto o : all_ops()) {
    bool same = true;
    for (int i = 0; i < 4; ++i) same = same && apply_op(o, i & 1, i & 2) == apply_op(op, i & 2, i & 1);
    if (same) return o;
  }
  std::abort();
}

inline void case_algebra(Case_ctx& c) {
  auto p = gen_pair(c.rng, {false, false, false, 0});
  if (p.a.m.f.size() + p.b.m.f.size() > 160) p = gen_hulls(c.rng, 8);
  if (p.a.m.id.empty()) {
    set_ids(p.a.m, 0);
    set_ids(p.b.m, 1000000);
  }
  note_pair(c, p);
  auto nt = random_threads(c.rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  std::vector<Solid> solids{p.a, p.b};
  if (c.rng.chance(0.5)) {  // one more in the same place
    auto q = p.cls.rfind("hull", 0) == 0 ? gen_hulls(c.rng, 7).a : c.rng.chance(0.5) ? p.b : p.a;
    if (p.cls.rfind("hull", 0) != 0) {
      scale_translate(q.m, FT(1), FT(c.rng.range(-1, 1)), FT(c.rng.range(-1, 1)), FT(c.rng.range(0, 1)));
      refresh(q);
    }
    set_ids(q.m, 2000000);
    solids.push_back(std::move(q));
  }
  std::vector<Region> base;
  for (auto& s : solids) base.push_back(to_region(s.m));
  auto n = static_cast<int>(base.size());
  std::vector<P> pts;
  std::vector<std::vector<bool>> at;
  auto add = [&](const P& q) {
    std::vector<bool> v;
    for (auto& s : solids) {
      auto l = s.locate(q, c.rng);
      require_bounding(p, l.has_value());
      if (*l == Loc::ON) return;
      v.push_back(*l == Loc::IN);
    }
    pts.push_back(q);
    at.push_back(std::move(v));
  };
  for (int i = 0; i < 8; ++i) {
    add(random_point_in(p, c.rng));
    auto& s = c.rng.pick(solids);
    add(near_face(s.m, c.rng.below(s.m.f.size()), c.rng, c.rng.chance(0.5) ? 1e-4 : -1e-4));
  }
  long checked = 0;
  auto check = [&](const Region& r, const Expr& e, Mesh& m) -> bool {
    if (!from_soup(r.boundary(), m)) {
      rep().violation("index", e.text() + ": a face index is out of range: " + pair_text(p));
      return false;
    }
    auto s = r.is_empty() ? Solid::special(false) : r.is_full() ? Solid::special(true) : Solid::closed(m);
    for (std::size_t i = 0; i < pts.size(); ++i) {
      auto got = s.locate(pts[i], c.rng);
      ++checked;
      if (!got || *got == Loc::ON || (*got == Loc::IN) != e.value(at[i])) {
        rep().violation("membership", fmt("%s: %s should be %s: ", e.text().c_str(), point_text(pts[i]).c_str(), e.value(at[i]) ? "inside" : "outside") + pair_text(p));
        return false;
      }
    }
    return true;
  };
  int which{};
  auto [el, er] = random_law(c.rng, n, c.rng.chance(0.6) ? 0 : c.rng.range(1, 2), which);
  rep().count(fmt("law.%d", which));
  std::string text = el->text() + " = " + er->text();
  if (c.verbose) std::fprintf(stderr, "%s\n", text.c_str());
  auto rl = el->build(base, c.rng);
  auto rr = er->build(base, c.rng);
  Mesh ml;
  Mesh mr;
  if (!check(rl, *el, ml) || !check(rr, *er, mr)) return;
  auto diff = Builder{rl, rr}(Op::J);
  if (!diff.is_empty()) {
    rep().violation("law", text + ": the symmetric difference is not empty: " + pair_text(p));
    return;
  }
  if (!Builder{rl, rr}(Op::E).is_full()) {
    rep().violation("law", text + ": the complement of the symmetric difference is not everything: " + pair_text(p));
    return;
  }
  rep().count("laws");
  if (volume6(ml) != volume6(mr)) {
    rep().violation("volume", text + ": the volumes differ: " + pair_text(p));
    return;
  }
  // Volumes: signed volumes are linear in the operator's polynomial over the operands.
  const auto& ra = rl.is_empty_or_full() ? base[0] : rl;
  const auto& ma = rl.is_empty_or_full() ? solids[0].m : ml;
  Builder ab{ra, base[1]};
  Builder ba{base[1], ra};
  std::map<Op, FT> vol;
  for (auto op : all_ops()) {
    Mesh m;
    if (!from_soup(ab(op, c.rng.chance(0.5)).boundary(), m)) {
      rep().violation("index", "a face index is out of range: " + pair_text(p));
      return;
    }
    vol[op] = volume6(m);
  }
  FT va = volume6(ma);
  FT vb = volume6(solids[1].m);
  FT vk = vol[Op::K];
  for (auto op : all_ops()) {
    int f00 = apply_op(op, false, false);
    int f10 = apply_op(op, true, false);
    int f01 = apply_op(op, false, true);
    int f11 = apply_op(op, true, true);
    FT want = va * FT(f10 - f00) + vb * FT(f01 - f00) + vk * FT(f11 - f10 - f01 + f00);
    if (vol[op] != want) {
      rep().violation("volume", fmt("op %s of %s and b: the volume is %.17g instead of %.17g: ", op_name(op), rl.is_empty_or_full() ? "a" : el->text().c_str(),
                                    CGAL::to_double(vol[op]), CGAL::to_double(want)) + pair_text(p));
      return;
    }
    rep().count("volumes");
  }
  for (auto op : some_ops(c.rng, 3)) {
    auto x = ab(op);
    auto y = ba(swapped_op(op));
    bool same = x.is_empty() == y.is_empty() && x.is_full() == y.is_full() && Builder{x, y}(Op::J).is_empty();
    rep().count("swaps");
    if (!same) {
      rep().violation("swap", fmt("op %s and, with the operands swapped, op %s differ: ", op_name(op), op_name(swapped_op(op))) + pair_text(p));
      return;
    }
  }
  rep().count("memberships", checked);
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------
// C22

inline void case_warnings(Case_ctx& c) {
  auto nt = random_threads(c.rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  if (c.rng.chance(0.6)) {
    auto p = checked_pair(c);
    note_pair(c, p);
    try {
      Builder b{to_region(p.a.m), to_region(p.b.m)};
      auto w = static_cast<int>(b.warnings());
      for (auto op : all_ops()) b(op, c.rng.chance(0.5));
      rep().count("consistent");
      c.nontrivial = true;
      if (w != 0 || static_cast<int>(b.warnings()) != 0) rep().violation("false-warning", fmt("warnings=%d: ", w) + pair_text(p));
    } catch (const std::exception& e) {
      rep().violation("throw", std::string{e.what()} + ": " + pair_text(p));
    }
    return;
  }
  // A triangle that only partly cuts a convex solid, or another triangle, in general position.
  auto x = inconsistent_pair(c.rng);
  c.sig = mix64(mesh_sig(x.a), mesh_sig(x.b));
  std::string text = x.cls + " A{" + mesh_text(x.a, 40) + "} B{" + mesh_text(x.b, 40) + "}";
  rep().count("inconsistent." + x.cls);
  if (c.idx % 37 == 0) rep().sample(text);
  if (c.verbose) std::fprintf(stderr, "%s\n", text.c_str());
  try {
    auto got = static_cast<int>(Builder{to_region(x.a), to_region(x.b)}.warnings());
    if (got != x.want) rep().violation(got & ~x.want ? "false-warning" : "missed-warning", fmt("warnings=%d instead of %d: ", got, x.want) + text);
  } catch (const std::exception& e) {
    rep().violation("throw", std::string{e.what()} + ": " + text);
  }
  rep().count("inconsistent");
  c.nontrivial = true;
}

inline std::map<std::string, Case_fn> set_props() {
  return {{"C03", case_special}, {"C04", case_open},    {"C05", case_data},
          {"C06", case_side},    {"C21", case_algebra}, {"C22", case_warnings}};
}
