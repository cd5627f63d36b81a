// C13: workloads with as many threads as possible and little synchronisation of their own, for a build with a
// race detector. Their results are judged elsewhere (C12, C15, C20); here only the detector judges, so nothing
// below may order what the library leaves unordered.
#pragma once

#include "props_runs.h"

#include <kigumi/AABB_tree/AABB_tree.h>
#include <kigumi/Region_io.h>
#include <kigumi/Triangle_mesh.h>
#include <kigumi/Triangle_soup_io.h>
#include <kigumi/parallel_do.h>
#include <kigumi/parallel_sort.h>

#include <numeric>

struct Race_body_failed {};

template <class F>
void in_threads(std::size_t n, F f) {
  std::vector<std::thread> t;
  t.reserve(n);
  for (std::size_t i = 0; i < n; ++i) t.emplace_back([&f, i] { f(i); });
  for (auto& x : t) x.join();
}

inline void use_all(const Region& r) {
  std::size_t n{};
  for (auto fi : r.boundary().faces()) n += r.boundary().data(fi).intact();
  if (n != r.boundary().num_faces()) rep().violation("data", "the data of a face are damaged");
}

// One call by several threads of its own.
inline void race_operations(Case_ctx& c) {
  Gen_options o;
  o.large = 0.1;
  auto p = gen_pair(c.rng, o);
  note_pair(c, p);
  auto nt = static_cast<std::size_t>(c.rng.range(2, 8));
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  auto a = to_region(p.a.m);
  auto b = to_region(p.b.m);
  int rounds = c.rng.range(1, 2);
  for (int k = 0; k < rounds; ++k) {
    hk::begin(c.rng.next(), c.rng.chance(0.7));
    Builder bld{a, b};
    auto r = bld(c.rng.pick(all_ops()), true);
    auto d = defects_of(r.boundary());
    hk::end();
    use_all(r);
    rep().distinct("interleavings", hk::order.load());
    rep().count("operations");
    if (r.is_empty_or_full() || r.boundary().num_faces() > 300 || p.clipped) break;
    // The result, not yet evaluated in full, is the next operand.
    a = std::move(r);
  }
}

// Several callers on shared operands.
inline void race_callers(Case_ctx& c) {
  Gen_options o;
  o.large = 0.02;
  auto p = gen_pair(c.rng, o);
  note_pair(c, p);
  auto a0 = to_region(p.a.m);
  auto b0 = to_region(p.b.m);
  // Perhaps a result whose coordinates have not been evaluated.
  const auto a = !p.clipped && c.rng.chance(0.5) ? [&] {
    auto r = Builder{a0, b0}(c.rng.chance(0.5) ? Op::A : Op::L);
    return r.is_empty_or_full() || r.boundary().num_faces() > 300 ? a0 : r;
  }() : a0;
  const auto& b = b0;
  const Builder shared{a0, b0};
  std::vector<P> pts;
  for (int i = 0; i < 4; ++i) {
    auto q = random_point_in(p, c.rng);
    if (inside_clip(p, q)) pts.push_back(q);
  }
  kigumi::Triangle_mesh<K, FD> tm;
  for (const auto& q : p.a.m.v) tm.add_vertex(q);
  for (const auto& f : p.a.m.f) tm.add_face({Vertex_index{f[0]}, Vertex_index{f[1]}, Vertex_index{f[2]}});
  tm.finalize();
  const auto n = static_cast<std::size_t>(c.rng.range(2, 5));
  std::vector<std::vector<int>> plans(n);
  std::vector<std::size_t> nts(n);
  std::vector<Op> ops(n);
  for (std::size_t i = 0; i < n; ++i) {
    nts[i] = static_cast<std::size_t>(c.rng.range(1, 4));
    ops[i] = c.rng.pick(all_ops());
    for (int k = c.rng.range(2, 5); k > 0; --k) plans[i].push_back(c.rng.range(0, 8));
  }
  // All may begin with the same use, at about the same time.
  if (c.rng.chance(0.5))
    for (std::size_t i = 0; i < n; ++i) plans[i][0] = plans[0][0];
  std::vector<int> failures(n);
  std::vector<std::array<long, 9>> uses(n);
  hk::begin(c.rng.next(), c.rng.chance(0.7));
  in_threads(n, [&](std::size_t i) {
    kigumi::Threading_context ctx{Thread_setting{nts[i]}.o};
    for (auto what : plans[i]) {
      ++uses[i][static_cast<std::size_t>(what)];
      try {
        switch (what) {
          case 0:
            for (const auto& q : pts) a.bounded_side(q);
            break;
          case 1:
            for (const auto& q : pts) b.bounded_side(q);
            break;
          case 2: {
            Builder bld{a, b};
            bld(ops[i]);
            break;
          }
          case 3:
            shared(ops[i]);
            break;
          case 4: {
            Region x{a};
            Region y;
            y = x;
            if (!pts.empty()) y.bounded_side(pts[0]);
            break;
          }
          case 5: {
            std::stringstream s;
            kigumi::kigumi_write<Region>(s, a);
            Region x;
            kigumi::kigumi_read<Region>(s, x);
            break;
          }
          case 6:
            defects_of(b.boundary());
            break;
          case 7: {
            std::stringstream s;
            if (i % 2 == 0) {
              kigumi::io::write_obj(s, a.boundary());
              Soup x;
              kigumi::io::read_obj(s, x);
            } else {
              kigumi::io::write_ply(s, a.boundary());
              Soup x;
              kigumi::io::read_ply(s, x);
            }
            break;
          }
          default: {
            std::vector<Face_index> seen;
            for (auto fi : tm.faces())
              for (auto x : tm.faces_around_face(fi, {})) seen.push_back(x);
            a.boundary().bbox();
            break;
          }
        }
      } catch (const std::exception&) {
        ++failures[i];
      }
    }
  });
  hk::end();
  rep().distinct("interleavings", hk::order.load());
  rep().count("callers", static_cast<long>(n));
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t k = 0; k < 9; ++k) rep().count(fmt("shared_uses.%zu", k), uses[i][k]);
    if (failures[i] > 0 && p.cls.rfind("chained", 0) != 0) rep().violation("exception", "a caller failed: " + pair_text(p));
  }
}

// Loops and sorts with bodies that do not synchronise.
inline void race_loops(Case_ctx& c) {
  hk::nprocs = 16;
  for (int k = 0; k < 4; ++k) {
    auto n = static_cast<std::size_t>(c.rng.range(1, 200));
    auto nt = static_cast<std::size_t>(c.rng.range(2, 12));
    std::size_t period = c.rng.chance(0.5) ? 0 : static_cast<std::size_t>(c.rng.range(1, 40));
    bool spin = c.rng.chance(0.5);
    auto salt = c.rng.next();
    std::vector<std::string> items(n);
    std::vector<std::string> all;
    kigumi::Threading_context ctx{Thread_setting{nt}.o};
    auto body = [&](std::string& x) {
      auto i = static_cast<std::size_t>(&x - items.data());
      x = "item number " + std::to_string(i);
      if (spin && mix64(salt, i) % 4 == 0) sched_yield();
      if (period != 0 && (i + 1) % period == 0) throw Race_body_failed{};
    };
    hk::begin(c.rng.next(), c.rng.chance(0.7));
    try {
      if (c.rng.chance(0.5)) {
        kigumi::parallel_do(items.begin(), items.end(), body);
      } else {
        kigumi::parallel_do(
            items.begin(), items.end(), std::vector<std::string>{},
            [&](std::string& x, std::vector<std::string>& s) {
              body(x);
              s.push_back(x);
            },
            [&](std::vector<std::string>& s) { all.insert(all.end(), s.begin(), s.end()); });
      }
    } catch (const Race_body_failed&) {
      rep().count("loops_that_throw");
    }
    // The caller uses what the workers wrote.
    std::size_t len{};
    for (auto& x : items) len += x.size();
    for (auto& x : all) len += x.size();
    hk::end();
    c.sig = mix64(c.sig, len);
    rep().count("loops");
    rep().distinct("interleavings", hk::order.load());
  }
  auto n = static_cast<std::size_t>(c.rng.range(0, 9000));
  std::vector<std::pair<int, std::string>> v(n);
  for (auto& x : v) x = {c.rng.range(0, 1000), "text"};
  {
    kigumi::Threading_context ctx{Thread_setting{static_cast<std::size_t>(c.rng.range(2, 12))}.o};
    kigumi::parallel_sort(v.begin(), v.end());
  }
  rep().count("sorts");
}

// Operations that fail, and unrelated ones beside them.
inline void race_failures(Case_ctx& c) {
  auto x = crossing_mesh(c.rng);
  auto y = crossing_mesh(c.rng);
  set_ids(x, 0);
  set_ids(y, 1000);
  auto n = static_cast<std::size_t>(c.rng.range(1, 3));
  c.sig = mix64(mesh_sig(x), mesh_sig(y));
  std::vector<std::size_t> nts(n);
  for (auto& t : nts) t = static_cast<std::size_t>(c.rng.range(2, 6));
  auto s = c.rng.next();
  std::vector<int> failed(n);
  hk::begin(c.rng.next(), c.rng.chance(0.7));
  in_threads(n, [&](std::size_t i) {
    Rng rng{mix64(s, i)};
    kigumi::Threading_context ctx{Thread_setting{nts[i]}.o};
    try {
      Builder b{to_region(x), to_region(y)};
      b(Op::A);
    } catch (const std::exception&) {
      ++failed[i];
    }
    try {
      auto half = x;
      half.f.resize(half.f.size() / 2);
      half.id.resize(half.f.size());
      auto r = to_region(half);
      for (int k = 0; k < 4; ++k) r.bounded_side(P{rng.real(-3, 3), rng.real(-3, 3), rng.real(-3, 3)});
      Builder b{r, to_region(y)};
      b(Op::K);
      b(Op::E);
    } catch (const std::exception&) {
      ++failed[i];
    }
    try {
      defects_of(to_soup(x));
    } catch (const std::exception&) {
      ++failed[i];
    }
  });
  hk::end();
  rep().distinct("interleavings", hk::order.load());
  for (auto f : failed) rep().count("failures", f);
  rep().count("operations", static_cast<long>(2 * n));
}

inline void case_races(Case_ctx& c) {
  hk::nprocs = 8;
  auto k = c.rng.range(0, 99);
  if (k < 55)
    race_operations(c);
  else if (k < 80)
    race_callers(c);
  else if (k < 90)
    race_loops(c);
  else
    race_failures(c);
  c.nontrivial = true;
}

inline std::map<std::string, Case_fn> race_props() { return {{"C13", case_races}}; }
