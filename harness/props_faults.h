// C24: memory and threads run out in the middle of calls. Needs hooks.h in the same executable.
#pragma once

#include "props_runs.h"

#include <kigumi/Region_io.h>
#include <kigumi/Triangle_mesh.h>
#include <kigumi/Triangle_soup_io.h>
#include <kigumi/parallel_do.h>
#include <kigumi/parallel_sort.h>

// Set by the linker.
extern "C" const char __executable_start, etext;

namespace faults {

// CGAL makes the objects that default-constructed ones share on their first use in each thread, also in the
// middle of inserting vertices into its triangulations, which does not survive an exception there.
inline void make_shared_objects_of_cgal() {
  K::Point_3 p3;
  K::Point_2 p2;
  K::Vector_3 v3;
  K::Vector_2 v2;
  K::FT x;
  K::Plane_3 plane;
  K::Line_3 line;
  K::Segment_3 segment;
  K::Triangle_3 triangle;
  K::Ray_3 ray;
}

struct Measured {
  long allocs, threads;
  std::vector<std::pair<const void*, long>> sites;  // where, and how often
};

struct Armed {
  Armed(Rng& rng, const Measured& m, bool short_of_threads) {
    auto allocs = m.allocs, threads = m.threads;
    hk::only_site = nullptr;
    hk::faults = 0;
    // One failure, a few, or every one from there on.
    auto n = rng.chance(0.6) ? 1 : rng.chance(0.5) ? static_cast<long>(rng.range(2, 6)) : 1000000000L;
    if (short_of_threads) {
      hk::threads_to_fail = n;
      hk::threads_left = static_cast<long>(rng.below(static_cast<std::uint64_t>(threads > 0 ? threads : 1)));
    } else {
      hk::allocs_to_fail = n;
      // Most allocations are made in a few places; the others are to fail as well.
      if (!m.sites.empty() && rng.chance(0.6)) {
        const auto& [at, times] = rng.pick(m.sites);
        hk::only_site = at;
        allocs = times;
        rep().count("faults_at_one_place");
      }
      hk::allocs_left = static_cast<long>(rng.below(static_cast<std::uint64_t>(allocs > 0 ? allocs : 1)));
    }
  }
  ~Armed() { hk::no_faults(); }
};

// Runs the call with faults; returns how it ended.
enum class End { DONE, FAILED };

template <class F>
End run(F&& f, Rng& rng, const Measured& m, bool short_of_threads, std::string& error) {
  auto live = hk::live.load();
  End e = End::DONE;
  char what[200] = "";
  {
    Armed armed{rng, m, short_of_threads};
    try {
      f();
    } catch (const std::exception& x) {
      hk::no_faults();
      e = End::FAILED;
      std::snprintf(what, sizeof what, "%s", x.what());
    }
  }
  for (int i = 0; i < 200 && hk::live.load() != live; ++i) hk::sleep_ns(1000000);
  if (hk::live.load() != live) error = "threads of the call are left";
  rep().count(hk::faults.load() == 0 ? "calls_without_fault" : e == End::FAILED ? "calls_failed" : "calls_completed_after_a_fault");
  if (hk::faults.load() == 0 && e == End::FAILED) error = std::string{"the call fails without a fault: "} + what;
  if (e == End::FAILED) rep().distinct("ways_to_fail", hash_str(what));
  return e;
}

template <class F>
Measured measure(F&& f) {
  hk::allocs = 0;
  hk::created = 0;
  hk::clear_sites();
  hk::counting = true;
  f();
  hk::counting = false;
  Measured m{hk::allocs.load(), hk::created.load(), {}};
  for (const auto& s : hk::sites)
    if (s.at.load()) m.sites.emplace_back(s.at.load(), s.n.load());
  return m;
}

// How many of the next allocations succeed is drawn from those that the call makes.
template <class F>
bool met_fault(F&& f, Rng& rng, const Measured& m) {
  Armed armed{rng, m, false};
  try {
    f();
  } catch (const std::exception&) {
    hk::no_faults();
    rep().count("calls_failed");
    return true;
  }
  hk::no_faults();
  rep().count(hk::faults.load() == 0 ? "calls_without_fault" : "calls_completed_after_a_fault");
  return false;
}

template <class T>
std::vector<std::vector<std::size_t>> incidences(const T& t) {
  std::vector<std::vector<std::size_t>> all;
  if constexpr (std::is_same_v<T, kigumi::Triangle_mesh<K, FD>>) {
    for (auto fi : t.faces())
      for (std::size_t k = 0; k < 3; ++k) {
        std::vector<std::size_t> around;
        for (auto g : t.faces_around_edge(kigumi::make_edge(t.face(fi)[k], t.face(fi)[(k + 1) % 3]))) around.push_back(g.idx());
        std::sort(around.begin(), around.end());
        all.push_back(around);
      }
  }
  return all;
}

// Meshes that are built, copied and assigned: what fails leaves the target as it was.
template <class T>
std::string build_with_faults(const Mesh& want, const Mesh& other, Rng& rng, bool index) {
  auto make = [&](const Mesh& m) {
    T t;
    for (const auto& p : m.v) t.add_vertex(p);
    for (std::size_t i = 0; i < m.f.size(); ++i) {
      auto fi = t.add_face({kigumi::Vertex_index{m.f[i][0]}, kigumi::Vertex_index{m.f[i][1]}, kigumi::Vertex_index{m.f[i][2]}});
      t.data(fi) = FD{i < m.id.size() ? m.id[i] : -1};
    }
    return t;
  };
  auto look = [](const T& t) {
    Mesh m;
    for (auto vi : t.vertices()) m.v.push_back(t.point(vi));
    for (auto fi : t.faces()) {
      const auto& f = t.face(fi);
      m.f.push_back({f[0].idx(), f[1].idx(), f[2].idx()});
      m.id.push_back(t.data(fi).intact() ? t.data(fi).id : Mesh::DAMAGED);
    }
    return m;
  };
  auto complete = [&](T& t) {
    if constexpr (std::is_same_v<T, kigumi::Triangle_mesh<K, FD>>) {
      if (index) t.finalize();
    }
  };
  if (rng.chance(0.5)) {
    // Assigned.
    T source = make(want), target = make(other);
    complete(source);
    complete(target);
    auto before = index ? incidences(target) : std::vector<std::vector<std::size_t>>{};
    T measured;
    auto allocs = measure([&] { measured = source; });
    if (met_fault([&] { target = source; }, rng, allocs)) {
      auto e = same_mesh(other, look(target));
      if (!e.empty()) return "after an assignment that failed: " + e;
      if (index && incidences(target) != before) return "the faces around the edges changed by an assignment that failed";
      target = source;
    }
    auto e = same_mesh(want, look(target));
    if (!e.empty()) return "assigned: " + e;
    if (index && incidences(target) != incidences(source)) return "assigned: other faces around the edges";
    return same_mesh(want, look(source));
  }
  // Built step by step; a step that fails is made again.
  T t;
  std::size_t v = 0, f = 0;
  auto step = [&] {
    while (v < want.v.size()) {
      t.add_vertex(want.v[v]);
      ++v;
    }
    while (f < want.f.size()) {
      auto fi = t.add_face({kigumi::Vertex_index{want.f[f][0]}, kigumi::Vertex_index{want.f[f][1]}, kigumi::Vertex_index{want.f[f][2]}});
      ++f;
      t.data(fi).id = f - 1 < want.id.size() ? want.id[f - 1] : -1;
    }
    complete(t);
  };
  auto allocs = measure([&] { auto x = make(want); complete(x); });
  allocs.allocs = std::max(1L, allocs.allocs / 4);
  for (int i = 0; i < 4; ++i) {
    if (!met_fault(step, rng, allocs)) continue;
    if (t.num_vertices() != v) return fmt("%zu vertices were added, and there are %zu", v, t.num_vertices());
    if (t.num_faces() != f) return fmt("%zu faces were added, and there are %zu", f, t.num_faces());
  }
  step();
  for (auto fi : t.faces()) t.data(fi) = FD{t.data(fi).id};
  auto e = same_mesh(want, look(t));
  if (!e.empty()) return "built: " + e;
  if (index) {
    T x = make(want);
    complete(x);
    if (incidences(x) != incidences(t)) return "built: other faces around the edges";
  }
  return {};
}

inline Mesh tetrahedron_at(int at, int size) {
  Mesh m;
  m.v = {P{at, at, at}, P{at + size, at, at + 1}, P{at, at + size, at}, P{at + 1, at, at + size}};
  m.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}};
  m.id = {1, 2, 3, 4};
  return m;
}

inline void case_faults(Case_ctx& c) {
  Gen_options o;
  o.large = 0.002;
  auto p = gen_pair(c.rng, o);
  note_pair(c, p);
  hk::nprocs = 8;
  make_shared_objects_of_cgal();
  hk::at_thread_start = make_shared_objects_of_cgal;
  Outcome ta, tb;
  ta.kind = tb.kind = Outcome::BOUNDARY;
  ta.m = p.a.m;
  tb.m = p.b.m;
  std::vector<Call> calls;
  for (auto op : some_ops(c.rng, 2)) calls.push_back({op, c.rng.chance(0.5)});
  const auto want = call_fresh(ta, tb, calls);
  if (!want.error.empty()) {
    rep().violation("exception", want.error + ": " + pair_text(p));
    return;
  }
  Outcome small_a, small_b;
  small_a.kind = small_b.kind = Outcome::BOUNDARY;
  small_a.m = tetrahedron_at(c.rng.range(-3, 3), 4);
  small_b.m = tetrahedron_at(c.rng.range(-3, 3), 3);
  const std::vector<Call> small_calls{{some_ops(c.rng, 1).front(), c.rng.chance(0.5)}};
  const auto small_want = call_fresh(small_a, small_b, small_calls);
  if (!small_want.error.empty()) {
    rep().violation("exception", small_want.error + ": two tetrahedra");
    return;
  }
  const auto defects_want = defects_of(to_region(p.a.m).boundary());
  std::vector<P> pts;
  std::vector<CGAL::Bounded_side> sides;
  for (int i = 0; i < 3; ++i) {
    auto q = random_point_in(p, c.rng);
    if (!inside_clip(p, q)) continue;
    auto l = p.a.locate(q, c.rng);
    require_bounding(p, !!l);
    pts.push_back(q);
    sides.push_back(*l == Loc::IN ? CGAL::ON_BOUNDED_SIDE : *l == Loc::OUT ? CGAL::ON_UNBOUNDED_SIDE : CGAL::ON_BOUNDARY);
  }
  auto fail = [&](const char* key, const std::string& what) { rep().violation(key, what + ": " + pair_text(p)); };
  int rounds = c.rng.range(4, 8);
  for (int round = 0; round < rounds; ++round) {
    std::size_t nt = c.rng.chance(0.5) ? 1 : static_cast<std::size_t>(c.rng.range(2, 5));
    kigumi::Threading_context ctx{Thread_setting{nt}.o};
    bool threads = nt > 1 && c.rng.chance(0.4);
    auto region = [&](const Outcome& t) {
      auto x = t;
      x.m = fresh(x.m);
      return region_of(x);
    };
    auto a = region(ta);
    auto b = region(tb);
    int what = c.rng.range(0, 12);
    std::string error;
    const char* name = "";
    auto judge = [&](auto&& call, auto&& check) {
      Measured m;
      {
        // On other objects, for what was computed once is not computed again.
        auto x = region(ta);
        auto y = region(tb);
        m = measure([&] { call(x, y); });
        for (const auto& [at, n] : m.sites)
          if (at >= &__executable_start && at < &etext)
            rep().distinct("places_that_allocate", static_cast<std::uint64_t>(static_cast<const char*>(at) - &__executable_start));
      }
      auto e = run([&] { call(a, b); }, c.rng, m, threads, error);
      if (!error.empty()) return;
      if (e == End::DONE) error = check();
      if (!error.empty()) {
        error = "the call that met a fault: " + error;
        return;
      }
      // What a failed call leaves behind in its thread may only show with other operands.
      if (c.rng.chance(0.5)) {
        rep().count("other_calls_in_between");
        auto got = call_all(region(small_a), region(small_b), small_calls, nt);
        error = got.error.empty() ? same_called(small_want, got, small_calls, c.rng) : got.error;
        if (!error.empty()) {
          error = "another call after it: " + error;
          return;
        }
      }
      // Once more without faults, in the same thread and on the same objects.
      try {
        call(a, b);
      } catch (const std::exception& x) {
        error = std::string{"the call after it: "} + x.what();
        return;
      }
      error = check();
      if (!error.empty()) error = "the call after it: " + error;
    };
    if (what <= 5) {
      name = "operation";
      std::vector<Region> results(calls.size());
      int warnings = 0;
      judge(
          [&](const Region& x, const Region& y) {
            Builder bld{x, y};
            for (std::size_t i = 0; i < calls.size(); ++i) results[i] = bld(calls[i].op, calls[i].prefer_first);
            warnings = static_cast<int>(bld.warnings());
          },
          [&] {
            Called got;
            for (auto& r : results) got.outcomes.push_back(outcome_of(r, warnings));
            return same_called(want, got, calls, c.rng);
          });
    } else if (what == 6) {
      name = "query";
      std::vector<CGAL::Bounded_side> got(pts.size());
      judge(
          [&](const Region& x, const Region&) {
            for (std::size_t i = 0; i < pts.size(); ++i) got[i] = x.bounded_side(pts[i]);
          },
          [&] { return std::string{got == sides ? "" : "a query gives a wrong answer"}; });
    } else if (what == 7) {
      name = "defects";
      std::unique_ptr<Defects> d;
      Defect_lists got;
      judge([&](const Region& x, const Region&) { d = std::make_unique<Defects>(x.boundary()); },
            [&] { return std::string{d->overlapping_faces().size() == defects_want.v.back().size() && defects_of(a.boundary()) == defects_want ? "" : "the defects differ"}; });
    } else if (what == 8) {
      name = "files";
      Region r = b;
      judge(
          [&](const Region& x, const Region&) {
            std::stringstream ss;
            // Streams catch exceptions, and report them by their state.
            if (!kigumi::write_kigumi_region<K, FD>(ss, x)) throw std::bad_alloc{};
            if (!kigumi::read_kigumi_region<K, FD>(ss, r)) throw std::bad_alloc{};
          },
          [&] { return same_mesh(outcome_of(r).m, ta.m); });
    } else if (what <= 10) {
      name = "building";
      error = c.rng.chance(0.5) ? build_with_faults<Soup>(ta.m, tb.m, c.rng, false)
                                : build_with_faults<kigumi::Triangle_mesh<K, FD>>(ta.m, tb.m, c.rng, c.rng.chance(0.7));
    } else if (what == 11) {
      name = "mesh_files";
      static const char* const exts[] = {".obj", ".off", ".ply"};
      auto path = "f." + std::to_string(getpid()) + exts[c.rng.below(3)];
      Soup before = b.boundary(), plain, s = before;
      if (!kigumi::write_triangle_soup<K, FD>(path, a.boundary()) || !kigumi::read_triangle_soup<K, FD>(path, plain)) {
        error = "cannot write or read " + path;
      } else {
        Mesh want_m, m;
        from_soup(plain, want_m);
        bool read = true;
        auto call = [&](const Region& x, const Region&) {
          if (!kigumi::write_triangle_soup<K, FD>(path, x.boundary())) throw std::bad_alloc{};
          // Reading leaves the soup alone unless it succeeds.
          s = before;
          read = false;
          read = kigumi::read_triangle_soup<K, FD>(path, s);
          if (!read) throw std::bad_alloc{};
        };
        judge(call, [&] {
          if (!from_soup(s, m)) return std::string{"a face index is out of range"};
          return same_mesh(want_m, m);
        });
      }
      std::remove(path.c_str());
    } else {
      name = "loop_and_sort";
      std::vector<int> seen(static_cast<std::size_t>(c.rng.range(1, 40)));
      std::vector<std::uint64_t> v(static_cast<std::size_t>(c.rng.range(1, 6000)));
      for (auto& x : v) x = c.rng.below(500);
      const auto unsorted = v;
      auto sorted = v;
      std::sort(sorted.begin(), sorted.end());
      std::atomic<int> sum{0};
      judge(
          [&](const Region&, const Region&) {
            std::fill(seen.begin(), seen.end(), 0);
            sum = 0;
            int total = 0;
            kigumi::parallel_do(seen.begin(), seen.end(), [](int& x) { ++x; });
            kigumi::parallel_do(seen.begin(), seen.end(), 0, [](int& x, int& s) { s += x; }, [&](int& s) { total += s; });
            sum = total;
            v = unsorted;
            kigumi::parallel_sort(v.begin(), v.end());
          },
          [&]() -> std::string {
            for (auto x : seen)
              if (x != 1) return "an item was not treated once";
            if (sum != static_cast<int>(seen.size())) return "states were lost";
            return v == sorted ? "" : "not sorted";
          });
    }
    rep().count(std::string{"rounds."} + name);
    if (!error.empty()) return fail(name, fmt("%zu threads, short of %s: ", nt, threads ? "threads" : "memory") + error);
    for (auto* x : {&a, &b}) {
      auto now = outcome_of(*x);
      auto e = same_mesh((x == &a ? ta : tb).m, now.m);
      if (!e.empty()) return fail("operand", std::string{"an operand was changed by "} + name + ": " + e);
    }
  }
  c.nontrivial = true;
}

}  // namespace faults
