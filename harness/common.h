// Shared plumbing of the verification harnesses: kernel aliases, the face payload, the PRNG, and the
// line protocol with check.py.
#pragma once

#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include <kigumi/Boolean_operator.h>
#include <kigumi/Boolean_region_builder.h>
#include <kigumi/Region.h>
#include <kigumi/Triangle_soup.h>
#include <kigumi/Warnings.h>
#include <kigumi/io.h>
#include <kigumi/threading.h>

#include <fcntl.h>
#include <unistd.h>

#include <array>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using K = CGAL::Exact_predicates_exact_constructions_kernel;
using P = K::Point_3;
using V3 = K::Vector_3;
using FT = K::FT;
using Bbox = CGAL::Bbox_3;

// The payload attached to every face: owns memory, and checks itself.
struct FD {
  std::int32_t id{-1};
  std::string text;

  FD() = default;
  explicit FD(std::int32_t i) : id{i}, text{make_text(i)} {}
  bool intact() const { return id == -1 ? text.empty() : text == make_text(id); }
  static std::string make_text(std::int32_t i) { return "data of face number " + std::to_string(i); }
  bool operator==(const FD&) const = default;
};

namespace kigumi {
template <>
struct Write<FD> {
  void operator()(std::ostream& out, const FD& t) const {
    kigumi_write<std::int32_t>(out, t.id);
    kigumi_write<std::int32_t>(out, static_cast<std::int32_t>(t.text.size()));
    out.write(t.text.data(), static_cast<std::streamsize>(t.text.size()));
  }
};
template <>
struct Read<FD> {
  void operator()(std::istream& in, FD& t) const {
    std::int32_t n{};
    kigumi_read<std::int32_t>(in, t.id);
    kigumi_read<std::int32_t>(in, n);
    if (!in || n < 0 || n > 64) {
      in.setstate(std::ios::failbit);
      return;
    }
    t.text.assign(static_cast<std::size_t>(n), '\0');
    in.read(t.text.data(), n);
  }
};
}  // namespace kigumi

using Region = kigumi::Region<K, FD>;
using Soup = kigumi::Triangle_soup<K, FD>;
using Builder = kigumi::Boolean_region_builder<K, FD>;
using Op = kigumi::Boolean_operator;
using kigumi::Face_index;
using kigumi::Vertex_index;

// ---------------------------------------------------------------------------------------------
// PRNG

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s{seed} {}
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<std::uint64_t>(hi - lo + 1))); }
  double unit() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
};

inline std::uint64_t hash_str(const std::string& s) {
  std::uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return h;
}

inline std::uint64_t mix64(std::uint64_t a, std::uint64_t b) {
  Rng r{a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL};
  r.next();
  return r.next();
}

// ---------------------------------------------------------------------------------------------
// Protocol. Lines go to the original standard output; everything the library prints on std::cout is
// sent to /dev/null.
//
//   B <case>                       the case starts
//   V <case> <key> <message>       a violation was observed
//   S <case> <text>                a written-out sample
//   E <case> <signature> <0|1>     the case ended; its signature and whether it was non-trivial
//   C <name> <n>                   add n to a counter
//   X <name> <value>               one more distinct value for a set-valued counter
//   D                              the range is finished

class Reporter {
 public:
  FILE* out{nullptr};
  long cur{-1};
  std::map<std::string, long> counters;
  std::map<std::string, std::set<std::uint64_t>> sets;
  int num_violations{0};

  static Reporter& get() {
    static Reporter r;
    return r;
  }

  void init() {
    int fd = dup(1);
    out = fdopen(fd, "w");
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    close(null);
  }

  void begin(long idx) {
    cur = idx;
    std::fprintf(out, "B %ld\n", idx);
    std::fflush(out);
  }

  void end(std::uint64_t sig, bool nontrivial) {
    std::fprintf(out, "E %ld %016llx %d\n", cur, static_cast<unsigned long long>(sig), nontrivial ? 1 : 0);
    std::fflush(out);
  }

  void sample(const std::string& text) { std::fprintf(out, "S %ld %s\n", cur, clean(text).c_str()); }

  void violation(const std::string& key, const std::string& msg) {
    ++num_violations;
    std::fprintf(out, "V %ld %s %s\n", cur, key.c_str(), clean(msg).c_str());
    std::fflush(out);
  }

  // Names must not contain spaces.
  void count(const std::string& name, long n = 1) { counters[name] += n; }

  void distinct(const std::string& name, std::uint64_t v) { sets[name].insert(v); }

  void flush() {
    for (auto& [k, v] : counters) std::fprintf(out, "C %s %ld\n", k.c_str(), v);
    counters.clear();
    for (auto& [k, v] : sets)
      for (auto x : v) std::fprintf(out, "X %s %llx\n", k.c_str(), static_cast<unsigned long long>(x));
    sets.clear();
    std::fflush(out);
  }

  void done() {
    flush();
    std::fprintf(out, "D\n");
    std::fflush(out);
  }

 private:
  static std::string clean(std::string s) {
    for (auto& c : s)
      if (c == '\n' || c == '\r') c = ' ';
    if (s.size() > 4000) s.resize(4000);
    return s;
  }
};

inline Reporter& rep() { return Reporter::get(); }

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  std::vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// The workload is not what it should be: an error of the harness, not of the code under test.
struct Generator_error : std::logic_error {
  using std::logic_error::logic_error;
};

struct Case_ctx {
  std::string prop;
  std::uint64_t seed;
  long idx;
  bool thorough;
  bool verbose;
  Rng rng;
  // What the case reports when it ends.
  std::uint64_t sig{0};
  bool nontrivial{false};
};

using Case_fn = std::function<void(Case_ctx&)>;

// usage: harness <property> <seed> <from> <to> [thorough] [verbose]
inline int harness_main(int argc, char** argv, const std::map<std::string, Case_fn>& props) {
  if (argc < 5) {
    std::fprintf(stderr, "usage: %s <property> <seed> <from> <to> [quick|thorough] [verbose]\n", argv[0]);
    return 64;
  }
  auto it = props.find(argv[1]);
  if (it == props.end()) {
    std::fprintf(stderr, "unknown property %s\n", argv[1]);
    return 64;
  }
  rep().init();
  auto seed = std::strtoull(argv[2], nullptr, 10);
  auto from = std::strtol(argv[3], nullptr, 10);
  auto to = std::strtol(argv[4], nullptr, 10);
  bool thorough = argc > 5 && std::strcmp(argv[5], "thorough") == 0;
  bool verbose = argc > 6;
  for (long i = from; i < to; ++i) {
    Case_ctx c{it->first, seed, i, thorough, verbose,
               Rng{mix64(mix64(hash_str(it->first), seed), static_cast<std::uint64_t>(i))}};
    rep().begin(i);
    try {
      it->second(c);
    } catch (const Generator_error& e) {
      rep().violation("generator", e.what());
    } catch (const std::exception& e) {
      rep().violation("exception", std::string{"unexpected exception: "} + e.what());
    }
    rep().end(c.sig, c.nontrivial);
    rep().flush();
  }
  rep().done();
  return 0;
}
