#pragma once

#include "bool_checks.h"

struct Thread_setting {
  kigumi::Threading_options o;
  explicit Thread_setting(std::size_t n) { o.set_num_threads(n); }
};

inline std::size_t random_threads(Rng& rng) {
  const std::size_t t[] = {1, 1, 2, 3, 8};
  return t[rng.below(5)];
}

inline Pair checked_pair(Case_ctx& c, const Gen_options& o = {}) {
  auto p = gen_pair(c.rng, o);
  if (c.rng.chance(0.25)) {  // the generators are trusted less than exact predicates
    for (const auto* s : {&p.a, &p.b}) {
      auto v = s->kind == Solid::OPEN ? validity_of(p) : Validity_options{};
      auto e = find_invalidity(s->m, v);
      if (!e.empty()) throw Generator_error(p.cls + ": " + e);
    }
  }
  return p;
}

inline void note_pair(Case_ctx& c, const Pair& p) {
  c.sig = mix64(mesh_sig(p.a.m), mesh_sig(p.b.m));
  rep().count("class." + p.cls);
  rep().count("input_faces", static_cast<long>(p.a.m.f.size() + p.b.m.f.size()));
  if (c.idx % 37 == 0) rep().sample(pair_text(p));
  if (c.verbose) std::fprintf(stderr, "%s\n", pair_text(p).c_str());
}

inline std::vector<Op> some_ops(Rng& rng, std::size_t n) {
  auto ops = all_ops();
  rng.shuffle(ops);
  ops.resize(n);
  return ops;
}

// C01: the result is the operator applied to the operands, as sets.
inline void case_sets(Case_ctx& c) {
  auto p = checked_pair(c);
  note_pair(c, p);
  auto nt = random_threads(c.rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  rep().count("threads." + std::to_string(nt));
  Builder b{to_region(p.a.m), to_region(p.b.m)};
  Membership ms{p, c.rng, {}, {}};
  int n = c.thorough ? 24 : 10;
  for (int i = 0; i < n; ++i) ms.add(random_point_in(p, c.rng));
  for (int i = 0; i < n; ++i) {
    const auto& s = i % 2 == 0 ? p.a : p.b;
    ms.add(near_face(s.m, c.rng.below(s.m.f.size()), c.rng, c.rng.chance(0.5) ? 1e-5 : -1e-5));
  }
  long checked = 0;
  std::set<int> kinds;
  for (auto op : all_ops()) {
    auto r = take_result(b, op, c.rng.chance(0.5));
    if (!r.ok) {
      rep().violation("index", fmt("op %s: a face index is out of range: ", op_name(op)) + pair_text(p));
      return;
    }
    kinds.insert(r.region.is_empty() ? 0 : r.region.is_full() ? 1 : 2);
    if (r.region.is_empty_or_full() != r.m.f.empty()) {
      rep().violation("kind", fmt("op %s: the kind of the result and its boundary disagree: ", op_name(op)) + pair_text(p));
      return;
    }
    auto s = result_solid(r, p.clipped);
    auto e = check_membership(r, s, ms, c.rng, checked);
    if (e.empty()) e = check_faces(r, p, s, c.rng, c.thorough ? 12 : 5, checked);
    rep().count("results");
    if (!e.empty()) {
      rep().violation("membership", e + ": " + pair_text(p));
      return;
    }
  }
  c.nontrivial = true;
  rep().count("memberships", checked);
}

// C02: the boundary of the result is well formed.
inline void case_wellformed(Case_ctx& c) {
  auto p = checked_pair(c);
  note_pair(c, p);
  auto nt = random_threads(c.rng);
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  Builder b{to_region(p.a.m), to_region(p.b.m)};
  auto v = validity_of(p);
  auto ops = some_ops(c.rng, c.thorough ? 16 : 6);
  if (c.rng.chance(0.5)) ops[0] = c.rng.chance(0.5) ? Op::J : Op::E;  // these keep most of the faces
  std::size_t nth{};
  for (auto op : ops) {
    // The faces of all results come from one subdivision, so intersections are sought in a few.
    v.check_pairs = nth++ < (c.thorough ? 4 : 2);
    auto r = take_result(b, op, c.rng.chance(0.5));
    rep().count("results");
    if (r.region.is_empty_or_full() != r.m.f.empty()) {
      rep().violation("kind", fmt("op %s: the kind of the result and its boundary disagree: ", op_name(op)) + pair_text(p));
      return;
    }
    auto e = r.ok ? find_invalidity(r.m, v) : std::string{"index: a face index is out of range"};
    rep().count("result_faces", static_cast<long>(r.m.f.size()));
    if (!e.empty()) {
      rep().violation(e.substr(0, e.find(':')), fmt("op %s prefer_first=%d: ", op_name(op), r.prefer_first) + e + ": " + pair_text(p));
      return;
    }
  }
  c.nontrivial = true;
}

inline std::map<std::string, Case_fn> bool_props() {
  return {{"C01", case_sets}, {"C02", case_wellformed}};
}
