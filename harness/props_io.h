// C07 to C10: the file formats.
#pragma once

#include "io_gen.h"
#ifdef VERIF_WITH_OPERATIONS
#include "bool_checks.h"
#include "gen.h"
#endif

#include <kigumi/Region_io.h>
#include <kigumi/Triangle_soup_io.h>

#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <filesystem>
#include <fstream>

extern char** environ;

inline std::string slurp(const std::string& path) {
  std::ifstream f{path, std::ios::binary};
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}

inline void spill(const std::string& path, const std::string& bytes) {
  std::ofstream f{path, std::ios::binary};
  f.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
  f.close();
  if (!f) throw Generator_error("writing " + path);
}

// Files live in the working directory, which is a scratch directory of this process.
inline std::string scratch(const std::string& name) { return "s." + std::to_string(getpid()) + "." + name; }

struct Scratch_file {
  std::string path;
  explicit Scratch_file(const std::string& name) : path{scratch(name)} {}
  ~Scratch_file() { unlink(path.c_str()); }
};

template <class D>
bool read_text(int format, std::istream& in, Soup_of<D>& s) {
  return format == 0 ? kigumi::io::read_obj(in, s) : format == 1 ? kigumi::io::read_off(in, s) : kigumi::io::read_ply(in, s);
}
template <class D>
bool write_text(int format, std::ostream& out, const Soup_of<D>& s) {
  return format == 0 ? kigumi::io::write_obj(out, s) : format == 1 ? kigumi::io::write_off(out, s) : kigumi::io::write_ply(out, s);
}

inline std::string hex(const std::string& s, std::size_t limit = 600) {
  std::string r;
  for (std::size_t i = 0; i < s.size() && i < limit; ++i) r += fmt("%02x", static_cast<unsigned char>(s[i]));
  return r;
}
inline std::string shown(const std::string& s, std::size_t limit = 1200) {
  std::string r;
  for (std::size_t i = 0; i < s.size() && i < limit; ++i) {
    auto c = static_cast<unsigned char>(s[i]);
    r += c == '\n' ? std::string{"\\n"} : c == '\r' ? std::string{"\\r"} : c < 0x20 || c > 0x7e ? fmt("\\x%02x", c) : std::string(1, s[i]);
  }
  return r;
}

struct Quiet {
  std::streambuf* out{std::cout.rdbuf()};
  std::streambuf* err{std::cerr.rdbuf()};
  std::ostringstream text;
  Quiet() {
    std::cout.rdbuf(text.rdbuf());
    std::cerr.rdbuf(text.rdbuf());
  }
  ~Quiet() {
    std::cout.rdbuf(out);
    std::cerr.rdbuf(err);
  }
};

// ---------------------------------------------------------------------------------------------
// C07

template <class D>
Region_of<D> random_region(Rng& rng) {
  auto k = rng.below(20);
  if (k == 0) return Region_of<D>::empty();
  if (k == 1) return Region_of<D>::full();
  Soup_options o;
  o.min_faces = 1;
  return Region_of<D>{random_soup<D>(rng, o)};
}

template <class D>
std::string check_round_trip(Case_ctx& c, const Region_of<D>& r, bool& exact) {
  Rng& rng = c.rng;
  std::string bytes;
  if (rng.chance(0.3)) {
    Scratch_file f{"a.kigumi"};
    if (rng.chance(0.5)) spill(f.path, std::string(5000, 'x'));  // to be overwritten
    if (!kigumi::write_kigumi_region(f.path, r)) return "saving failed";
    bytes = slurp(f.path);
    rep().count("saved_to_files");
  } else {
    std::ostringstream o;
    if (!kigumi::write_kigumi_region(o, r)) return "saving failed";
    bytes = o.str();
  }
  auto want = plain_of<D>(r);
  auto d = decode_kigumi<D>(bytes);
  exact = d.exact > 0;
  rep().count("vertices.doubles", static_cast<long>(d.doubles));
  rep().count("vertices.rationals", static_cast<long>(d.exact));
  rep().count("bytes", static_cast<long>(bytes.size()));
  if (!d.complete || !d.valid || d.used != bytes.size()) return "layout: the bytes written are not a region: " + d.why + ": " + hex(bytes);
  if (auto e = difference(want, d.m); !e.empty()) return "layout: the bytes written are another region: " + e;
  if (!d.canonical) return "layout: a number is not in its shortest form: " + hex(bytes);

  auto check = [&](const Region_of<D>& got, const char* what) {
    auto e = difference(want, plain_of<D>(got));
    return e.empty() ? e : fmt("%s: ", what) + e;
  };
  Region_of<D> back;
  {
    std::istringstream in{bytes};
    if (!kigumi::read_kigumi_region(in, back)) return "loading failed";
  }
  if (auto e = check(back, "loaded"); !e.empty()) return e;
  {
    Soup_options o;
    o.min_faces = 1;
    auto other = rng.chance(0.2) ? Region_of<D>::full() : Region_of<D>{random_soup<D>(rng, o)};
    Scratch_file f{"b.kigumi"};
    spill(f.path, bytes);
    if (!kigumi::read_kigumi_region(f.path, other)) return "loading from a file failed";
    if (auto e = check(other, "loaded over another region"); !e.empty()) return e;
  }
  {  // followed by something else in the stream
    std::istringstream in{bytes + bytes + "rest"};
    Region_of<D> x, y;
    if (!kigumi::read_kigumi_region(in, x) || !kigumi::read_kigumi_region(in, y)) return "loading two regions from one stream failed";
    if (auto e = check(y, "the second of two"); !e.empty()) return e;
    std::string rest;
    in >> rest;
    if (rest != "rest") return "loading does not stop at the end of a region";
  }
  // A second generation.
  std::ostringstream o2;
  if (!kigumi::write_kigumi_region(o2, back)) return "saving the loaded region failed";
  Region_of<D> again;
  {
    std::istringstream in{o2.str()};
    if (!kigumi::read_kigumi_region(in, again)) return "loading the second generation failed";
  }
  if (auto e = check(again, "second generation"); !e.empty()) return e;
  // Files in every legal form.
  std::vector<D> data;
  for (auto fi : r.boundary().faces()) data.push_back(r.boundary().data(fi));
  auto enc = encode_kigumi<D>(want, data, rng);
  Region_of<D> from;
  {
    std::istringstream in{enc.bytes};
    if (!kigumi::read_kigumi_region(in, from)) return "loading a valid file failed: " + hex(enc.bytes);
  }
  if (auto e = check(from, "loaded from a file written by other means"); !e.empty()) return e;
  rep().count("regions");
  return {};
}

template <class D>
void round_trips(Case_ctx& c) {
  for (int i = 0; i < 6; ++i) {
    auto r = random_region<D>(c.rng);
    bool exact{};
    auto e = check_round_trip<D>(c, r, exact);
    if (!e.empty()) {
      rep().violation(e.substr(0, e.find_first_of(":")) == "layout" ? "layout" : "round-trip", e + fmt(" (face data: %s) ", Data_codec<D>::name) + plain_text(plain_of<D>(r)));
      return;
    }
    auto text = plain_text(plain_of<D>(r));
    c.sig = mix64(c.sig, hash_str(text));
    if (i == 0 && c.idx % 37 == 0) rep().sample(text.substr(0, 400));
  }
  c.nontrivial = true;
  rep().count(std::string{"data."} + Data_codec<D>::name);
}

// The regions exchanged between builds, made the same way in each.
inline Region_of<FD> exchanged(std::uint64_t seed) {
  Rng rng{seed};
  return random_region<FD>(rng);
}

// The part of the other build: writes the same regions, and says what it reads from our files.
// arguments: seed, number of regions, directory
inline int exchange_main(int argc, char** argv) {
  if (argc != 5) return 64;
  auto seed = std::strtoull(argv[2], nullptr, 10);
  int n = std::atoi(argv[3]);
  std::string dir = argv[4];
  for (int i = 0; i < n; ++i) {
    auto r = exchanged(mix64(seed, static_cast<std::uint64_t>(i)));
    if (!kigumi::write_kigumi_region(dir + fmt("/theirs%d.kigumi", i), r)) return 2;
    Region_of<FD> got;
    std::string text = "unreadable";
    try {
      if (kigumi::read_kigumi_region(dir + fmt("/ours%d.kigumi", i), got)) text = plain_text(plain_of<FD>(got), ~0ULL);
    } catch (const std::exception& e) {
      text = std::string{"exception: "} + e.what();
    }
    spill(dir + fmt("/seen%d.txt", i), text);
  }
  return 0;
}

inline int run_program(const std::vector<std::string>& args) {
  std::vector<char*> a;
  for (const auto& s : args) a.push_back(const_cast<char*>(s.c_str()));
  a.push_back(nullptr);
  pid_t pid{};
  if (posix_spawn(&pid, a[0], nullptr, nullptr, a.data(), environ) != 0) throw Generator_error("cannot start " + args[0]);
  int st{};
  while (waitpid(pid, &st, 0) < 0) {
    if (errno != EINTR) throw Generator_error("waitpid");
  }
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

inline const char* required_env(const char* name) {
  const char* v = std::getenv(name);
  if (!v) throw Generator_error(std::string{name} + " is not set");
  return v;
}

inline void case_exchange(Case_ctx& c) {
  std::string dir = scratch("exchange");
  std::filesystem::create_directory(dir);
  struct Clean {
    std::string d;
    ~Clean() { std::filesystem::remove_all(d); }
  } clean{dir};
  auto seed = c.rng.next();
  const int n = 12;
  std::vector<Region_of<FD>> rs;
  for (int i = 0; i < n; ++i) {
    rs.push_back(exchanged(mix64(seed, static_cast<std::uint64_t>(i))));
    if (!kigumi::write_kigumi_region(dir + fmt("/ours%d.kigumi", i), rs.back())) {
      rep().violation("round-trip", "saving failed");
      return;
    }
  }
  int st = run_program({required_env("VERIF_BIN_IO_BOOST"), "exchange", std::to_string(seed), std::to_string(n), dir});
  if (st != 0) {
    rep().violation("exchange", fmt("the program built with the other arithmetic ended with status %d", st));
    return;
  }
  for (int i = 0; i < n; ++i) {
    auto want = plain_of<FD>(rs[static_cast<std::size_t>(i)]);
    auto text = plain_text(want, ~0ULL);
    auto ours = slurp(dir + fmt("/ours%d.kigumi", i)), theirs = slurp(dir + fmt("/theirs%d.kigumi", i));
    auto seen = slurp(dir + fmt("/seen%d.txt", i));
    if (seen != text) {
      rep().violation("exchange", "written with gmpxx, loaded with Boost numbers: " + seen.substr(0, 1000) + " instead of " + text.substr(0, 1000));
      return;
    }
    Region_of<FD> got;
    bool ok = false;
    try {
      ok = kigumi::read_kigumi_region(dir + fmt("/theirs%d.kigumi", i), got);
    } catch (const std::exception& e) {
      rep().violation("exchange", std::string{"exception: "} + e.what());
      return;
    }
    if (!ok || plain_of<FD>(got) != want) {
      rep().violation("exchange", "written with Boost numbers, loaded with gmpxx: " + (ok ? difference(want, plain_of<FD>(got)) : "failed: ") + text.substr(0, 1000));
      return;
    }
    // The bytes may differ: whether a coordinate is known to be a double depends on the arithmetic.
    auto d = decode_kigumi<FD>(theirs);
    if (!d.valid || d.used != theirs.size() || d.m != want || !d.canonical) {
      rep().violation("layout", "Boost numbers are not written in the common form: " + d.why + ": " + text.substr(0, 600) + ": " + hex(theirs));
      return;
    }
    if (ours == theirs) rep().count("exchanged_with_equal_bytes");
    rep().count("exchanged");
  }
  c.sig = seed;
  c.nontrivial = true;
}

// Files kept from the first version of the format.
inline void case_golden(Case_ctx& c) {
  std::string dir = required_env("VERIF_GOLDEN");
  long n = 0;
  for (const auto& e : std::filesystem::directory_iterator(dir)) {
    auto path = e.path().string();
    if (!path.ends_with(".kigumi")) continue;
    auto want = slurp(path.substr(0, path.size() - 6) + "txt");
    Region_of<FD> got;
    std::string seen = "unreadable";
    try {
      if (kigumi::read_kigumi_region(path, got)) seen = plain_text(plain_of<FD>(got), ~0ULL);
    } catch (const std::exception& x) {
      seen = std::string{"exception: "} + x.what();
    }
    for (auto fi : got.boundary().faces())
      if (!got.boundary().data(fi).intact()) seen = "face data differ";
    if (seen != want) {
      rep().violation("golden", path.substr(path.rfind('/') + 1) + ": " + seen.substr(0, 500) + " instead of " + want.substr(0, 500));
      return;
    }
    ++n;
  }
  if (n < 20) throw Generator_error("golden files are missing");
  rep().count("golden", n);
  c.sig = static_cast<std::uint64_t>(n);
  c.nontrivial = true;
}

inline int make_golden(const std::string& dir) {
  for (int i = 0; i < 40; ++i) {
    auto r = exchanged(mix64(77, static_cast<std::uint64_t>(i)));
    if (!kigumi::write_kigumi_region(dir + fmt("/%02d.kigumi", i), r)) return 1;
    spill(dir + fmt("/%02d.txt", i), plain_text(plain_of<FD>(r), ~0ULL));
  }
  return 0;
}

#ifdef VERIF_WITH_OPERATIONS
// Results of operations, which have coordinates that no one has evaluated yet.
inline void results_saved(Case_ctx& c) {
  auto p = gen_pair(c.rng, {});
  Builder b{to_region(p.a.m), to_region(p.b.m)};
  auto ops = all_ops();
  c.rng.shuffle(ops);
  for (int i = 0; i < 4; ++i) {
    auto r = b(ops[static_cast<std::size_t>(i)]);
    bool exact{};
    auto e = check_round_trip<FD>(c, r, exact);
    if (!e.empty()) {
      rep().violation(e.substr(0, e.find_first_of(":")) == "layout" ? "layout" : "round-trip", e + fmt(" (op %s) ", op_name(ops[static_cast<std::size_t>(i)])) + pair_text(p));
      return;
    }
    rep().count("results_saved");
    if (exact) rep().count("results_saved_with_rationals");
  }
  c.sig = mix64(mesh_sig(p.a.m), mesh_sig(p.b.m));
  c.nontrivial = true;
}
#endif

inline void case_kigumi(Case_ctx& c) {
  if (c.idx == 0) return case_golden(c);
#ifdef VERIF_WITH_OPERATIONS
  if (c.idx % 6 == 2) return results_saved(c);
#endif
  switch (c.rng.below(c.idx % 8 == 1 && std::getenv("VERIF_BIN_IO_BOOST") ? 6 : 5)) {
    case 0: return round_trips<FD>(c);
    case 1: return round_trips<kigumi::Null_data>(c);
    case 2: return round_trips<std::int32_t>(c);
    case 3: return round_trips<double>(c);
    case 4: return round_trips<std::uint16_t>(c);
    default: return case_exchange(c);
  }
}

// ---------------------------------------------------------------------------------------------
// C09

// Whether d is one of the two doubles around q, or q itself.
inline bool brackets(double d, const Q& q) {
  if (Q(d) == q) return true;
  if (is_double(q)) return false;
  double other = std::nextafter(d, Q(d) < q ? HUGE_VAL : -HUGE_VAL);
  if (!std::isfinite(other)) return true;
  return Q(d) < q ? q < Q(other) : Q(other) < q;
}

template <class D>
void text_round_trip(Case_ctx& c) {
  Soup_options o;
  o.moderate = true;
  if (c.rng.chance(0.1)) o.max_vertices = 300, o.max_faces = 500;
  auto s = random_soup<D>(c.rng, o);
  int format = static_cast<int>(c.rng.below(3));
  bool negative = format == 0 && c.rng.chance(0.3);
  kigumi::io::Write_obj_options wo;
  wo.set_negative_indices(negative);
  std::string text;
  {
    kigumi::io::Write_obj_context ctx{wo};
    if (c.rng.chance(0.3)) {
      Scratch_file f{std::string{"m."} + format_name(format)};
      if (c.rng.chance(0.5)) spill(f.path, std::string(5000, 'x'));
      if (!kigumi::write_triangle_soup(f.path, s)) {
        rep().violation("writing", "failed");
        return;
      }
      text = slurp(f.path);
    } else {
      std::ostringstream out;
      if (!write_text(format, out, s)) {
        rep().violation("writing", "failed");
        return;
      }
      text = out.str();
    }
  }
  c.sig = mix64(c.sig, hash_str(text));
  if (c.idx % 37 == 0) rep().sample(std::string{format_name(format)} + ": " + shown(text).substr(0, 300));
  auto want = plain_of<D>(s);
  auto m = parse_text(format, text);
  auto complain = [&](const std::string& key, const std::string& e) { rep().violation(key, fmt("%s: ", format_name(format)) + e + ": " + shown(text)); };
  if (m.verdict != Text_mesh::VALID) return complain("writing", "the text is not a mesh (" + m.why + ")");
  auto seen = m.plain();
  if (seen.v.size() != want.v.size() || seen.f != want.f) return complain("writing", "the text is another mesh");
  for (std::size_t i = 0; i < m.v.size(); ++i)
    for (int k = 0; k < 3; ++k)
      if (!brackets(m.v[i][k], want.v[i][k])) return complain("writing", fmt("%.17g is written for ", m.v[i][k]) + want.v[i][k].get_str());
  if (negative && text.find("\nf ") != std::string::npos && text.find("\nf -") == std::string::npos) return complain("writing", "no negative indices");

  // Read back over another mesh.
  auto back = random_soup<D>(c.rng, o);
  Quiet q;
  bool ok{};
  if (c.rng.chance(0.3)) {
    Scratch_file f{std::string{"r."} + format_name(format)};
    spill(f.path, text);
    ok = kigumi::read_triangle_soup(f.path, back);
  } else {
    std::istringstream in{text};
    ok = read_text(format, in, back);
  }
  if (!ok) return complain("reading", "what was written is not read: " + q.text.str());
  auto got = plain_of<D>(back);
  if (!same_points_and_faces(got, seen)) return complain("reading", difference(seen, got));
  for (auto fi : back.faces())
    if (Data_codec<D>::text(back.data(fi)) != Data_codec<D>::text(D{})) return complain("reading", "a face has data");
  rep().count(std::string{"round_trips."} + format_name(format));
  rep().count("vertices", static_cast<long>(m.v.size()));
}

inline void text_spellings(Case_ctx& c) {
  auto m = random_polygons(c.rng, 14, 14);
  auto want = m.plain();
  for (int format = 0; format < 3; ++format)
    for (int k = 0; k < 3; ++k) {
      auto text = spell(c.rng, format, m, k == 0);
      c.sig = mix64(c.sig, hash_str(text));
      if (k == 0 && c.idx % 37 == 0) rep().sample(std::string{format_name(format)} + ": " + shown(text).substr(0, 300));
      auto own = parse_text(format, text);
      if (own.verdict == Text_mesh::VALID && !same_points_and_faces(own.plain(), want)) throw Generator_error(fmt("spelling and parsing of %s differ: ", format_name(format)) + shown(text));
      if (own.verdict == Text_mesh::INCOMPLETE) throw Generator_error(fmt("a spelling of %s is incomplete (%s): ", format_name(format), own.why.c_str()) + shown(text));
      Soup_of<FD> s;
      Quiet q;
      bool ok{};
      if (c.rng.chance(0.2)) {
        Scratch_file f{std::string{"p."} + format_name(format)};
        spill(f.path, text);
        ok = kigumi::read_triangle_soup(f.path, s);
      } else {
        std::istringstream in{text};
        ok = read_text(format, in, s);
      }
      if (!ok) {
        rep().violation("reading", fmt("a legal %s is not read: ", format_name(format)) + q.text.str() + ": " + shown(text));
        return;
      }
      auto got = plain_of<FD>(s);
      if (!same_points_and_faces(got, want)) {
        rep().violation("reading", fmt("a legal %s is read as another mesh: ", format_name(format)) + difference(want, got) + ": " + shown(text));
        return;
      }
      rep().count(std::string{"spellings."} + format_name(format));
      rep().distinct("texts", hash_str(text));
    }
}

// A locale an application may have set, with separators between digits.
struct Grouping : std::numpunct<char> {
  char do_thousands_sep() const override { return ','; }
  std::string do_grouping() const override { return "\1"; }
  char do_decimal_point() const override { return ';'; }
};

struct Global_locale {
  std::locale old;
  explicit Global_locale(bool on) : old{std::locale()} {
    if (on) std::locale::global(std::locale(old, new Grouping));
  }
  ~Global_locale() { std::locale::global(old); }
};

inline void case_text(Case_ctx& c) {
  Global_locale loc{c.rng.chance(0.1)};
  for (int i = 0; i < 3; ++i) {
    auto before = rep().num_violations;
    if (c.rng.chance(0.5)) {
      text_spellings(c);
    } else if (c.rng.chance(0.5)) {
      text_round_trip<FD>(c);
    } else {
      text_round_trip<kigumi::Null_data>(c);
    }
    if (rep().num_violations != before) return;
  }
  c.nontrivial = true;
}
