// C12 and C18: the same call gives the same result, whatever runs beside it or ran before it.
// Needs hooks.h in the same executable.
#pragma once

#include "hooks.h"
#include "props_bool.h"
#include "region_eq.h"
#include "warn_gen.h"

#include <kigumi/Find_defects.h>

#include <exception>
#include <thread>

using Defects = kigumi::Find_defects<K, FD>;

// ---------------------------------------------------------------------------------------------
// C12

struct Call {
  Op op;
  bool prefer_first;
};

struct Called {
  std::vector<Outcome> outcomes;
  std::string error;
};

inline Called call_all(const Region& a, const Region& b, const std::vector<Call>& calls, std::size_t nt) {
  Called r;
  try {
    kigumi::Threading_context ctx{Thread_setting{nt}.o};
    Builder bld{a, b};
    for (auto& q : calls) r.outcomes.push_back(outcome_of(bld(q.op, q.prefer_first), static_cast<int>(bld.warnings())));
  } catch (const std::exception& e) {
    r.error = e.what();
  }
  return r;
}

inline std::string same_called(const Called& a, const Called& b, const std::vector<Call>& calls, Rng& rng) {
  if (a.error != b.error) return "one fails with '" + a.error + "', the other with '" + b.error + "'";
  for (std::size_t i = 0; i < a.outcomes.size(); ++i) {
    auto e = same_outcome(a.outcomes[i], b.outcomes[i], rng);
    if (!e.empty()) return fmt("op %s prefer_first=%d: ", op_name(calls[i].op), calls[i].prefer_first) + e;
  }
  return {};
}

inline void note_run(std::size_t nt) {
  rep().distinct("interleavings", hk::order.load());
  rep().count("jitter_points", hk::points.load());
  rep().count("threads_started", hk::created.load());
  rep().count(fmt("runs_with_threads.%zu", nt));
}

// An inconsistent pair among components that are not: the warnings do not depend on threads either.
inline void case_schedules_of_warnings(Case_ctx& c) {
  auto x = inconsistent_pair(c.rng);
  c.sig = mix64(mesh_sig(x.a), mesh_sig(x.b));
  int n = c.rng.chance(0.3) ? 0 : c.rng.range(10, 60);
  auto box = [&](double lo, double hi, double y) {
    Grid g;
    for (int a = 0; a < 3; ++a) g.c[a] = {FT(a == 0 ? lo : y), FT(a == 0 ? hi : y + (hi - lo))};
    return voxel_mesh(g, Cells(1, 1), c.rng, 0);
  };
  for (int i = 0; i < n; ++i) {
    x.a = merged(x.a, box(4 + 4 * i, 6 + 4 * i, 0));
    x.b = merged(x.b, box(5 + 4 * i, 7 + 4 * i, 0.5));
  }
  x.a.id.clear();
  x.b.id.clear();
  scramble(x.a, c.rng);
  scramble(x.b, c.rng);
  auto warnings = [&](const Region& a, const Region& b, std::size_t nt) -> int {
    kigumi::Threading_context ctx{Thread_setting{nt}.o};
    return static_cast<int>(Builder{a, b}.warnings());
  };
  std::string text = x.cls + fmt(" and %d boxes A{", n) + mesh_text(x.a, 40) + "} B{" + mesh_text(x.b, 40) + "}";
  try {
    for (int i = 0; i < (c.thorough ? 8 : 4); ++i) {
      auto nt = i == 0 ? 1 : static_cast<std::size_t>(c.rng.range(2, 8));
      auto a = to_region(x.a);
      auto b = to_region(x.b);
      hk::begin(c.rng.next(), i != 0);
      auto got = warnings(a, b, nt);
      hk::end();
      if (i != 0) note_run(nt);
      if (got != x.want) {
        rep().violation("warnings", fmt("%zu threads: warnings=%d instead of %d: ", nt, got, x.want) + text);
        return;
      }
      rep().count("runs_with_warnings");
    }
  } catch (const std::exception& e) {
    hk::end();
    rep().violation("exception", std::string{e.what()} + ": " + text);
    return;
  }
  c.nontrivial = true;
}

inline void case_schedules(Case_ctx& c) {
  if (c.rng.chance(0.12)) return case_schedules_of_warnings(c);
  Gen_options o;
  o.large = 0.2;
  auto p = gen_pair(c.rng, o);
  note_pair(c, p);
  std::vector<Call> calls;
  for (auto op : some_ops(c.rng, c.thorough ? 6 : 3)) calls.push_back({op, c.rng.chance(0.5)});
  calls[0].op = c.rng.chance(0.5) ? Op::J : Op::E;
  Called want;
  {
    auto a = to_region(p.a.m);
    auto b = to_region(p.b.m);
    hk::begin(c.rng.next(), false);
    want = call_all(a, b, calls, 1);
    hk::end();
    rep().count("threads_started_by_one", hk::created.load());
  }
  if (!want.error.empty()) {
    rep().violation("exception", want.error + ": " + pair_text(p));
    return;
  }
  const std::size_t counts[] = {2, 3, 4, 5, 8};
  int runs = c.thorough ? 6 : 3;
  for (int i = 0; i < runs; ++i) {
    auto nt = counts[c.rng.below(5)];
    auto a = to_region(p.a.m);
    auto b = to_region(p.b.m);
    hk::begin(c.rng.next(), true);
    auto got = call_all(a, b, calls, nt);
    hk::end();
    note_run(nt);
    auto e = same_called(want, got, calls, c.rng);
    if (!e.empty()) {
      rep().violation("threads", fmt("1 thread and %zu threads: ", nt) + e + ": " + pair_text(p));
      return;
    }
  }
  if (!c.rng.chance(0.5)) {
    c.nontrivial = true;
    return;
  }
  // Several callers at once, on the same operands, with queries in between.
  auto a = to_region(p.a.m);
  auto b = to_region(p.b.m);
  std::vector<P> pts;
  std::vector<std::pair<Loc, Loc>> at;
  for (int i = 0; i < 6; ++i) {
    auto q = i < 3 ? random_point_in(p, c.rng) : near_face(p.a.m, c.rng.below(p.a.m.f.size()), c.rng, c.rng.chance(0.5) ? 1e-4 : -1e-4);
    if (!inside_clip(p, q)) continue;
    auto la = p.a.locate(q, c.rng);
    auto lb = p.b.locate(q, c.rng);
    require_bounding(p, la && lb);
    pts.push_back(q);
    at.emplace_back(*la, *lb);
  }
  const auto n = static_cast<std::size_t>(c.rng.range(2, 4));
  std::vector<Called> got(n);
  std::vector<std::string> wrong(n);
  std::vector<std::size_t> nts;
  for (std::size_t i = 0; i < n; ++i) nts.push_back(static_cast<std::size_t>(c.rng.range(1, 4)));
  auto side = [](Loc l) { return l == Loc::IN ? CGAL::ON_BOUNDED_SIDE : l == Loc::OUT ? CGAL::ON_UNBOUNDED_SIDE : CGAL::ON_BOUNDARY; };
  std::vector<std::thread> callers;
  hk::begin(c.rng.next(), true);
  for (std::size_t i = 0; i < n; ++i) {
    callers.emplace_back([&, i, first = c.rng.chance(0.5)] {
      auto query = [&] {
        try {
          for (std::size_t j = 0; j < pts.size(); ++j)
            if (a.bounded_side(pts[j]) != side(at[j].first) || b.bounded_side(pts[j]) != side(at[j].second))
              wrong[i] = "a query for " + point_text(pts[j]) + " gives a wrong answer";
        } catch (const std::exception& e) {
          wrong[i] = std::string{"a query fails: "} + e.what();
        }
      };
      if (first) query();
      got[i] = call_all(a, b, calls, nts[i]);
      if (!first) query();
    });
  }
  for (auto& t : callers) t.join();
  hk::end();
  note_run(0);
  rep().count("concurrent_callers", static_cast<long>(n));
  for (std::size_t i = 0; i < n; ++i) {
    auto e = wrong[i].empty() ? same_called(want, got[i], calls, c.rng) : wrong[i];
    if (!e.empty()) {
      rep().violation("callers", fmt("one of %zu callers: ", n) + e + ": " + pair_text(p));
      return;
    }
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------
// C18

// The same points, sharing no representation with p.
inline P fresh(const P& p) {
  return {FT(CGAL::exact(p.x())), FT(CGAL::exact(p.y())), FT(CGAL::exact(p.z()))};
}

inline Mesh fresh(Mesh m) {
  for (auto& p : m.v) p = fresh(p);
  return m;
}

struct Slot {
  Outcome truth;  // what the region should be
  Solid solid;    // the same, for membership
  Region r;
};

inline Solid solid_of(const Outcome& o, bool open) {
  if (o.kind != Outcome::BOUNDARY) return Solid::special(o.kind == Outcome::FULL);
  return open ? Solid::open(o.m) : Solid::closed(o.m);
}

inline Region region_of(const Outcome& o) {
  return o.kind == Outcome::EMPTY ? Region::empty() : o.kind == Outcome::FULL ? Region::full() : to_region(o.m);
}

inline std::string unchanged(const Slot& s) {
  auto now = outcome_of(s.r);
  if (now.kind != s.truth.kind) return std::string{"was "} + kind_name(s.truth.kind) + ", is now " + kind_name(now.kind);
  auto e = same_mesh(s.truth.m, now.m);
  if (!e.empty()) return e;
  // The box holds all vertices, and nothing that is in none of their boxes' hull.
  const auto& soup = s.r.boundary();
  CGAL::Bbox_3 loose;
  for (auto vi : soup.vertices()) loose += soup.point(vi).approx().bbox();
  auto box = soup.bbox();
  for (const auto& p : s.truth.m.v)
    for (int k = 0; k < 3; ++k)
      if (p[k] < FT(box.min(k)) || p[k] > FT(box.max(k))) return "the box does not hold all vertices";
  if (!s.truth.m.v.empty() && box != loose && loose + box != loose) return "the box is too large";
  rep().count("boxes");
  return {};
}

// In a thread of its own, from operands built for it.
inline Called call_fresh(const Outcome& a, const Outcome& b, const std::vector<Call>& calls) {
  Called r;
  std::thread t{[&] {
    auto x = a;
    auto y = b;
    x.m = fresh(x.m);
    y.m = fresh(y.m);
    r = call_all(region_of(x), region_of(y), calls, 1);
  }};
  t.join();
  return r;
}

// A closed mesh that crosses itself.
inline Mesh crossing_mesh(Rng& rng) {
  auto m = random_hull(rng, 6, 3);
  auto x = m;
  scale_translate(x, FT(1), FT(rng.range(-1, 1)) / FT(2), FT(1) / FT(3), FT(rng.range(0, 1)));
  return merged(m, x);
}

struct Defect_lists {
  std::vector<std::vector<std::size_t>> v;
  bool operator==(const Defect_lists&) const = default;
};

inline Defect_lists defects_of(const Soup& s) {
  Defects d{s};
  Defect_lists r;
  auto add = [&](auto& list, auto get) {
    std::vector<std::size_t> x;
    for (auto& e : list) get(e, x);
    r.v.push_back(x);
  };
  auto edges = [&](auto& list) {
    auto sorted = list;
    std::sort(sorted.begin(), sorted.end());
    add(sorted, [](auto& e, auto& x) {
      x.push_back(e[0].idx());
      x.push_back(e[1].idx());
    });
  };
  auto single = [&](auto& list) {
    auto sorted = list;
    std::sort(sorted.begin(), sorted.end());
    add(sorted, [](auto& e, auto& x) { x.push_back(e.idx()); });
  };
  edges(d.boundary_edges());
  edges(d.inconsistent_edges());
  edges(d.non_manifold_edges());
  single(d.isolated_vertices());
  single(d.non_manifold_vertices());
  single(d.trivial_degenerate_faces());
  single(d.non_trivial_degenerate_faces());
  single(d.overlapping_faces());
  return r;
}

inline void case_histories(Case_ctx& c) {
  Gen_options o;
  o.large = 0.003;
  auto p = gen_pair(c.rng, o);
  note_pair(c, p);
  auto nt = random_threads(c.rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  std::string log;
  std::vector<Slot> slots;
  auto add_slot = [&](const Outcome& t, Region r, std::size_t where) {
    Slot s{t, solid_of(t, p.clipped), std::move(r)};
    if (where < slots.size())
      slots[where] = std::move(s);
    else
      slots.push_back(std::move(s));
  };
  for (auto* s : {&p.a, &p.b}) {
    Outcome t;
    t.kind = Outcome::BOUNDARY;
    t.m = s->m;
    auto r = to_region(s->m);
    Solid so = *s;
    slots.push_back({t, so, std::move(r)});
  }
  {
    Outcome t;
    t.kind = c.rng.chance(0.5) ? Outcome::EMPTY : Outcome::FULL;
    add_slot(t, region_of(t), 99);
  }
  struct Kept {
    Outcome a, b;
    Builder bld;
  };
  std::vector<Kept> kept;
  struct Memo {
    std::size_t a, b;
    std::vector<Call> calls;
  };
  auto fail = [&](const char* key, const std::string& what) {
    rep().violation(key, what + " after [" + log + "]: " + pair_text(p));
  };
  int steps = c.rng.range(5, c.thorough ? 24 : 12);
  for (int step = 0; step < steps; ++step) {
    auto i = c.rng.below(slots.size());
    auto j = c.rng.below(slots.size());
    int what = c.rng.range(0, 13);
    if (c.verbose) std::fprintf(stderr, "step %d: what %d, %zu and %zu of %zu\n", step, what, i, j, slots.size());
    if (what <= 2) {  // operate
      if (slots[i].truth.m.f.size() + slots[j].truth.m.f.size() > 260 && step > 2) continue;
      std::vector<Call> calls;
      for (int k = c.rng.range(1, 3); k > 0; --k) calls.push_back({all_ops()[c.rng.below(16)], c.rng.chance(0.5)});
      log += fmt("%s(%zu,%zu) ", op_name(calls[0].op), i, j);
      Builder bld{slots[i].r, slots[j].r};
      auto want = call_fresh(slots[i].truth, slots[j].truth, calls);
      if (!want.error.empty()) return fail("exception", want.error);
      Called got;
      Region last;
      for (auto& q : calls) {
        last = bld(q.op, q.prefer_first);
        got.outcomes.push_back(outcome_of(last, static_cast<int>(bld.warnings())));
      }
      rep().count("calls", static_cast<long>(calls.size()));
      auto e = same_called(want, got, calls, c.rng);
      if (!e.empty()) return fail("history", "a call differs from the same call made alone: " + e);
      if (c.rng.chance(0.5)) kept.push_back({slots[i].truth, slots[j].truth, c.rng.chance(0.5) ? Builder{bld} : std::move(bld)});
      if (c.rng.chance(0.6) && got.outcomes.back().m.f.size() < 200) {
        auto t = got.outcomes.back();
        add_slot(t, std::move(last), slots.size() < 6 ? 99 : c.rng.below(slots.size()));
      }
    } else if (what == 3) {  // a builder kept from before
      if (kept.empty()) continue;
      auto& k = c.rng.pick(kept);
      std::vector<Call> calls;
      for (int n = c.rng.range(1, 3); n > 0; --n) calls.push_back({all_ops()[c.rng.below(16)], c.rng.chance(0.5)});
      log += fmt("kept %s ", op_name(calls[0].op));
      auto want = call_fresh(k.a, k.b, calls);
      Called got;
      for (auto& q : calls) got.outcomes.push_back(outcome_of(k.bld(q.op, q.prefer_first), static_cast<int>(k.bld.warnings())));
      rep().count("calls_of_kept_builders", static_cast<long>(calls.size()));
      auto e = same_called(want, got, calls, c.rng);
      if (!e.empty()) return fail("history", "a later call of a builder differs from the same call made alone: " + e);
    } else if (what <= 6) {  // query
      log += fmt("query %zu ", i);
      auto& s = slots[i];
      for (int n = 0; n < 4; ++n) {
        P q = random_point_in(p, c.rng);
        if (s.truth.kind == Outcome::BOUNDARY && n % 2 == 0) {
          auto fi = c.rng.below(s.truth.m.f.size());
          if (c.rng.chance(0.3)) fi = s.truth.m.f.size() - 1 - c.rng.below(std::min<std::size_t>(4, s.truth.m.f.size()));
          q = near_face(s.truth.m, fi, c.rng, c.rng.chance(0.5) ? 1e-3 : -1e-3);
        }
        if (!inside_clip(p, q)) continue;
        auto l = s.solid.locate(q, c.rng);
        if (!l) return fail("bounding", fmt("region %zu bounds nothing", i));
        auto want = *l == Loc::IN ? CGAL::ON_BOUNDED_SIDE : *l == Loc::OUT ? CGAL::ON_UNBOUNDED_SIDE : CGAL::ON_BOUNDARY;
        rep().count("queries");
        if (s.r.bounded_side(q) != want) return fail("query", fmt("query of region %zu for %s gives a wrong answer", i, point_text(q).c_str()));
      }
    } else if (what == 7) {
      log += fmt("defects %zu ", i);
      auto got = defects_of(slots[i].r.boundary());
      Defect_lists want;
      std::thread t{[&] { want = defects_of(region_of(slots[i].truth).boundary()); }};
      t.join();
      rep().count("defect_searches");
      if (got != want) return fail("defects", fmt("the defects of region %zu differ from those found alone", i));
    } else if (what == 8) {  // copy
      log += fmt("copy %zu to %zu ", i, j);
      if (c.rng.chance(0.5)) {
        auto& to = slots[j].r;
        to = static_cast<const Region&>(slots[i].r);
      } else {
        Region x{slots[i].r};
        slots[j].r = x;
      }
      slots[j].truth = slots[i].truth;
      slots[j].solid = slots[i].solid;
      rep().count("copies");
    } else if (what == 9) {  // move away and back, or elsewhere
      log += fmt("move %zu to %zu ", i, j);
      Region x{std::move(slots[i].r)};
      slots[i].r = slots[j].r;
      if (c.rng.chance(0.5)) std::swap(slots[i].r, x);
      if (i != j) {
        // Now one of x, slots[i].r is the old i, and the other a copy of j; put them so that they are swapped.
        bool back = same_mesh(outcome_of(slots[i].r).m, slots[i].truth.m).empty() && outcome_of(slots[i].r).kind == slots[i].truth.kind;
        if (!back) {
          slots[j].r = std::move(x);
          std::swap(slots[i].truth, slots[j].truth);
          std::swap(slots[i].solid, slots[j].solid);
        }
      } else {
        slots[i].r = region_of(slots[i].truth);
      }
      rep().count("moves");
    } else if (what == 10) {  // edit: one more component, or a hole
      auto& s = slots[i];
      if (p.clipped || s.truth.kind != Outcome::BOUNDARY || s.truth.m.f.size() > 200) continue;
      log += fmt("add to %zu ", i);
      auto x = random_hull(c.rng, 5, 2);
      Boxes bx{x};
      const auto& bb = s.solid.boxes.all;
      double e = bb.xmax() - bb.xmin();
      double k = std::exp2(std::floor(std::log2(e)) - 3);
      scale_translate(x, FT(k), FT(bb.xmax() + e / 8 - k * bx.all.xmin()), FT((bb.ymin() + bb.ymax()) / 2), FT((bb.zmin() + bb.zmax()) / 2));
      if (s.solid.outer) x = flipped(x);
      set_ids(x, 3000000 + step * 1000);
      auto& soup = s.r.boundary_unsafe();
      std::vector<Vertex_index> vi;
      for (auto& q : x.v) vi.push_back(soup.add_vertex(q));
      for (std::size_t f = 0; f < x.f.size(); ++f) {
        auto fi = soup.add_face({vi[x.f[f][0]], vi[x.f[f][1]], vi[x.f[f][2]]});
        soup.data(fi) = FD{x.id[f]};
      }
      auto m = merged(s.truth.m, x);
      m.id = s.truth.m.id;
      m.id.insert(m.id.end(), x.id.begin(), x.id.end());
      s.truth.m = m;
      s.solid = Solid::closed(m);
      rep().count("edits");
      // The part that was added counts at once.
      for (int n = 0; n < 3; ++n) {
        auto q = near_face(x, c.rng.below(x.f.size()), c.rng, c.rng.chance(0.5) ? 1e-3 : -1e-3);
        auto l = s.solid.locate(q, c.rng);
        if (!l) return fail("bounding", fmt("region %zu bounds nothing", i));
        auto want = *l == Loc::IN ? CGAL::ON_BOUNDED_SIDE : CGAL::ON_UNBOUNDED_SIDE;
        rep().count("queries_after_edits");
        if (s.r.bounded_side(q) != want) return fail("query", fmt("query of the edited region %zu for %s gives a wrong answer", i, point_text(q).c_str()));
      }
    } else if (what == 11) {  // edit: data, or a boundary put in place of another
      auto& s = slots[i];
      if (s.truth.kind != Outcome::BOUNDARY) continue;
      if (c.rng.chance(0.5)) {
        log += fmt("data of %zu ", i);
        auto f = c.rng.below(s.truth.m.f.size());
        s.r.boundary_unsafe().data(kigumi::Face_index{f}) = FD{4000000 + step};
        s.truth.m.id[f] = 4000000 + step;
      } else {
        auto& t = slots[j];
        if (t.truth.kind != Outcome::BOUNDARY) continue;
        log += fmt("boundary of %zu for %zu ", j, i);
        if (c.rng.chance(0.5))
          s.r.boundary_unsafe() = t.r.boundary();
        else
          s.r.boundary_unsafe() = to_soup(t.truth.m);
        s.truth = t.truth;
        s.solid = t.solid;
      }
      rep().count("edits");
    } else if (what == 12) {  // a call that may fail
      log += "bad ";
      try {
        if (c.rng.chance(0.3)) {
          Region r{Soup{}};
        } else if (c.rng.chance(0.5)) {
          auto x = crossing_mesh(c.rng);
          auto r = random_hull(c.rng, 6, 3);
          set_ids(x, 0);
          set_ids(r, 0);
          Builder b{to_region(x), to_region(r)};
          b(Op::A);
          b(Op::E);
        } else {
          // Half of a boundary.
          auto x = random_hull(c.rng, 6, 3);
          x.f.resize(x.f.size() / 2);
          auto r = random_hull(c.rng, 6, 3);
          set_ids(x, 0);
          set_ids(r, 0);
          Builder b{to_region(x), to_region(r)};
          b(Op::K);
          b(Op::E);
          b(Op::J);
        }
        rep().count("bad_calls_accepted");
      } catch (const std::exception&) {
        rep().count("bad_calls_failed");
      }
    } else {
      log += fmt("again %zu ", i);
      // Nothing but the comparison below.
    }
    for (std::size_t k = 0; k < slots.size(); ++k) {
      auto e = unchanged(slots[k]);
      if (!e.empty()) return fail("operand", fmt("region %zu was changed: ", k) + e);
    }
  }
  rep().count("steps", steps);
  c.nontrivial = true;
}

inline std::map<std::string, Case_fn> run_props() {
  return {{"C12", case_schedules}, {"C18", case_histories}};
}
