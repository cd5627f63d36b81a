// C14: everything the library offers for valid use, in a build with address, undefined-behaviour and leak
// detection and with all assertions of the library and of CGAL. What the workloads compute is judged by the
// other checks; here only crashes and reports count.
//
// Compiled as two programs to save time: MEM_PART 1 and 2.
#if MEM_PART == 1
#include "props_race.h"

#include "props_defects.h"
#else
#include "props_adjacency.h"
#include "props_loops.h"
#include "props_search.h"
#include "props_sets.h"
#include "props_triangles.h"

#include <thread>
#endif

namespace {

struct Work {
  const char* name;
  int weight;
  void (*run)(Case_ctx&);
};

const std::vector<Work>& works() {
  static const std::vector<Work> w{
#if MEM_PART == 1
      {"histories", 20, case_histories}, {"operations", 16, race_operations}, {"callers", 16, race_callers},
      {"failures", 10, race_failures},   {"loops", 5, race_loops},            {"defects", 24, defects::case_defects},
#else
      {"special", 10, case_special},   {"open", 12, case_open},           {"data", 10, case_data},
      {"side", 14, case_side},         {"warnings", 10, case_warnings},   {"wellformed", 8, case_wellformed},
      {"search", 8, case_search},      {"adjacency", 8, case_adjacency},  {"triangles", 8, case_triangles},
      {"item_loops", 8, case_loops},
#endif
  };
  return w;
}

const Work& pick_work(Rng& rng) {
  int sum = 0;
  for (auto& w : works()) sum += w.weight;
  int k = static_cast<int>(rng.below(static_cast<std::uint64_t>(sum)));
  for (auto& w : works()) {
    k -= w.weight;
    if (k < 0) return w;
  }
  std::abort();
}

void case_memory(Case_ctx& c) {
  hk::nprocs = c.rng.range(1, 8);
  std::uint64_t sig = 0;
  int n = c.rng.range(1, 3);
  bool all = true;
  for (int i = 0; i < n; ++i) {
    const auto& w = pick_work(c.rng);
    Case_ctx sub{c.prop, c.seed, c.idx, false, c.verbose, Rng{c.rng.next()}};
    auto run = [&] {
      try {
        w.run(sub);
      } catch (const Generator_error&) {
        throw;
      } catch (const std::exception& e) {
        rep().violation("exception", e.what());
      }
    };
    // In the thread that did the former work, or in a thread of its own.
    if (c.rng.chance(0.5)) {
      run();
      rep().count("in_former_thread");
    } else {
      std::exception_ptr failed;
      std::thread t{[&] {
        try {
          run();
        } catch (...) {
          failed = std::current_exception();
        }
      }};
      t.join();
      if (failed) std::rethrow_exception(failed);
      rep().count("in_new_thread");
    }
    hk::end();
    rep().count(std::string{"work."} + w.name);
    sig = mix64(sig, sub.sig);
    all = all && sub.nontrivial;
  }
  c.sig = sig;
  c.nontrivial = all;
}

}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, {{"C14", case_memory}}); }
