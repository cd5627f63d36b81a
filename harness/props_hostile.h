// C08 and C10: damaged files, and devices that fail.
#pragma once

#include "props_io.h"

#include <sys/time.h>

// ---------------------------------------------------------------------------------------------
// C08

// Ends the process (SIGPROF) if a read takes unreasonably long.
struct Cpu_limit {
  explicit Cpu_limit(long seconds) { set(seconds); }
  ~Cpu_limit() { set(0); }
  static void set(long s) {
    itimerval t{{0, 0}, {s, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
  }
};

inline std::string hostile_int_bytes(Rng& rng) {
  const std::int32_t x[] = {-1, INT32_MIN, INT32_MAX, 0x10000000, 0x00ffffff, 0, 1, 2, 3, 100, 65536, -2};
  return Data_codec<std::int32_t>::bytes(x[rng.below(12)]);
}
inline std::string hostile_double_bytes(Rng& rng) {
  const double x[] = {HUGE_VAL, -HUGE_VAL, std::nan(""), -std::nan("1"), 4.9e-324, 0.0, -0.0, 1.7976931348623157e308};
  auto s = Data_codec<double>::bytes(x[rng.below(8)]);
  if (rng.chance(0.2)) s = std::string{"\1\0\0\0\0\0\xf0\x7f", 8};  // a signalling NaN
  return s;
}

// Damages a region file at the fields it is made of.
inline std::string damage_fields(Rng& rng, const Encoded& e, std::string& how) {
  auto b = e.bytes;
  auto [at, what] = e.fields[rng.below(e.fields.size())];
  // The larger files have few counts.
  if (rng.chance(0.4)) std::tie(at, what) = e.fields[rng.below(3)];
  if (rng.chance(0.2)) {
    std::vector<std::size_t> lens;
    for (std::size_t i = 0; i < e.fields.size(); ++i)
      if (e.fields[i].second == 'c') lens.push_back(i);
    if (!lens.empty()) std::tie(at, what) = e.fields[rng.pick(lens)];
  }
  how += fmt("field %c at %zu, ", what, at);
  if (what == 'k' || what == 'b') {
    b[at] = static_cast<char>(rng.below(256));
  } else if (what == 'x') {
    b.replace(at, 8, hostile_double_bytes(rng));
  } else {
    auto old = static_cast<unsigned char>(b[at]);
    auto s = hostile_int_bytes(rng);
    if (rng.chance(0.4)) s = Data_codec<std::int32_t>::bytes(old + rng.range(-2, 2));
    if (what == 'c' && rng.chance(0.4)) {  // make the number zero, of the same length
      std::uint32_t n;
      std::memcpy(&n, b.data() + at, 4);
      for (std::size_t i = 0; i < n && at + 4 + i < b.size(); ++i) b[at + 4 + i] = 0;
    } else {
      b.replace(at, 4, s);
    }
  }
  return b;
}

inline std::string damage_bytes(Rng& rng, std::string b, std::string& how) {
  int n = rng.range(1, 4);
  for (int i = 0; i < n; ++i) {
    auto at = rng.below(b.size() + 1);
    how += fmt("byte %zu, ", static_cast<std::size_t>(at));
    switch (rng.below(5)) {
      case 0:
        if (at < b.size()) b[at] = static_cast<char>(b[at] ^ (1 << rng.below(8)));
        break;
      case 1:
        if (at < b.size()) b[at] = static_cast<char>(rng.below(256));
        break;
      case 2: b.insert(at, 1, static_cast<char>(rng.below(256))); break;
      case 3: b.erase(at, rng.below(6)); break;
      default: {
        auto from = rng.below(b.size() + 1);
        b.insert(at, b.substr(from, rng.below(12)));
      }
    }
  }
  return b;
}

inline std::string hostile_word(Rng& rng) {
  const std::vector<std::string> w{"-1", "0", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "4294967296", "2147483648",
                                   "4294967295", "9223372036854775808", "-9223372036854775808", "1e999", "-1e999", "1e308", "1e309", "nan", "-nan", "inf", "-inf", "infinity", "1e-400",
                                   "0x10", "1,5", "abc", "#", "+", "-", ".", "e", "1.", ".5", "3.0", "--1", "+-1", "1/", "/", "//", "1//", "-0", "+3", "00003",
                                   "vertex", "face", "list", "element", "property", "v", "f", "OFF", "ply", "end_header", "comment", "1000000000", "100000000",
                                   std::string("\0", 1), "\xff\xfe", "1e", "1e+", "0x1p3", std::string(400, '9'), std::string(400, '9') + "e-390", "2", "7", "1000"};
  return rng.pick(w);
}

inline std::string damage_text(Rng& rng, const std::string& s, std::string& how) {
  auto ls = lines(s);
  int n = rng.range(1, 3);
  for (int i = 0; i < n && !ls.empty(); ++i) {
    auto at = rng.below(ls.size());
    auto w = words(ls[at]);
    auto k = rng.below(w.size() + 1);
    switch (rng.below(9)) {
      case 0:
      case 1:
      case 2:
        if (k < w.size()) w[k] = hostile_word(rng);
        how += fmt("word %zu of line %zu, ", static_cast<std::size_t>(k), static_cast<std::size_t>(at));
        break;
      case 3: w.insert(w.begin() + static_cast<long>(k), hostile_word(rng)); break;
      case 4:
        if (k < w.size()) w.erase(w.begin() + static_cast<long>(k));
        break;
      case 5:
        ls.erase(ls.begin() + static_cast<long>(at));
        how += fmt("without line %zu, ", static_cast<std::size_t>(at));
        continue;
      case 6:
        ls.insert(ls.begin() + static_cast<long>(rng.below(ls.size() + 1)), std::string{ls[at]});
        continue;
      case 7: std::swap(ls[at], ls[rng.below(ls.size())]); continue;
      default: w.resize(rng.below(w.size() + 1)); how += fmt("line %zu cut, ", static_cast<std::size_t>(at));
    }
    std::string l;
    for (auto& x : w) l += (l.empty() ? "" : " ") + x;
    ls[at] = l;
  }
  std::string r;
  for (auto& l : ls) r += l + "\n";
  return r;
}

inline std::string garbage(Rng& rng, int format) {
  std::string s;
  if (rng.chance(0.3)) return s;
  auto n = rng.below(400);
  for (std::uint64_t i = 0; i < n; ++i) {
    if (format < 3 && rng.chance(0.4)) {
      s += hostile_word(rng) + (rng.chance(0.3) ? "\n" : " ");
    } else {
      s += static_cast<char>(rng.chance(0.5) ? rng.below(8) : rng.below(256));
    }
  }
  if (rng.chance(0.05)) s += std::string(1 << 20, " \n#0f"[rng.below(5)]);
  return s;
}

enum class Outcome_of_read { OK, FAILED, THREW };

template <class Fn>
Outcome_of_read attempt(Fn&& fn, std::string& what) {
  try {
    return fn() ? Outcome_of_read::OK : Outcome_of_read::FAILED;
  } catch (const std::exception& e) {
    what = e.what();
    return Outcome_of_read::THREW;
  } catch (...) {
    what = "something that is no std::exception";
    rep().violation("exception", "a read throws " + what);
    return Outcome_of_read::THREW;
  }
}

inline std::string insane(const Soup_of<FD>& s) {
  for (auto vi : s.vertices()) {
    const auto& p = s.point(vi);
    for (int k = 0; k < 3; ++k) {
      auto i = CGAL::to_interval(p[k]);
      if (!(i.first <= i.second) || (std::isinf(i.first) && i.first == i.second)) return fmt("coordinate %d of vertex %zu is not finite", k, vi.idx());
    }
  }
  for (auto fi : s.faces())
    for (auto vi : s.face(fi))
      if (vi.idx() >= s.num_vertices()) return fmt("face %zu refers to vertex %zu of %zu", fi.idx(), vi.idx(), s.num_vertices());
  return {};
}

template <class Read>
Outcome_of_read watched(std::size_t size, Read&& read, std::string& what) {
  mem::mark();
  auto before = mem::live.load();
  Outcome_of_read r;
  {
    Cpu_limit limit{20};
    Quiet q;
    r = attempt(read, what);
  }
  auto used = mem::peak.load() - before;
  if (used > (1 << 20) + static_cast<long>(size) * 1000) rep().violation("memory", fmt("%ld bytes of memory for an input of %zu bytes", used, size));
  rep().count(r == Outcome_of_read::OK ? "accepted" : r == Outcome_of_read::FAILED ? "refused" : "refused_by_exception");
  return r;
}

inline void hostile_kigumi(Case_ctx& c) {
  Rng& rng = c.rng;
  Soup_options o;
  o.min_faces = 1;
  o.max_vertices = 8;
  o.max_faces = 8;
  Plain m;
  std::vector<FD> data;
  if (rng.chance(0.9)) {
    auto s = random_soup<FD>(rng, o);
    m = plain_of<FD>(s);
    for (auto fi : s.faces()) data.push_back(s.data(fi));
  } else {
    m.kind = rng.range(0, 1);
  }
  auto e = encode_kigumi<FD>(m, data, rng);
  std::string how, b = e.bytes;
  switch (rng.below(6)) {
    case 0:
      b.resize(rng.below(b.size()));
      how = fmt("cut at %zu", b.size());
      break;
    case 1: b = damage_bytes(rng, b, how); break;
    case 2:
      b = garbage(rng, 3);
      how = "garbage";
      break;
    default:
      b = damage_fields(rng, e, how);
      if (rng.chance(0.2)) b = damage_bytes(rng, b, how);
      if (rng.chance(0.1)) b.resize(rng.below(b.size() + 1));
  }
  c.sig = mix64(c.sig, hash_str(b));
  if (c.idx % 37 == 0) rep().sample("kigumi, " + how + ": " + hex(b, 300));
  auto d = decode_kigumi<FD>(b);
  auto target = rng.chance(0.3) ? Region_of<FD>::full() : Region_of<FD>{random_soup<FD>(rng, o)};
  auto before = plain_of<FD>(target);
  std::string what;
  Outcome_of_read r;
  if (rng.chance(0.15)) {
    Scratch_file f{"h.kigumi"};
    spill(f.path, b);
    r = watched(b.size(), [&] { return kigumi::read_kigumi_region(f.path, target); }, what);
  } else {
    std::istringstream in{b};
    r = watched(b.size(), [&] { return kigumi::read_kigumi_region(in, target); }, what);
  }
  auto complain = [&](const std::string& key, const std::string& t) {
    rep().violation(key, "kigumi, " + how + ": " + t + (what.empty() ? "" : " (" + what + ")") + ": " + hex(b, 1500));
  };
  if (r == Outcome_of_read::OK) {
    if (!d.complete) return complain("accepted", "a file that is not complete (" + d.why + ") is accepted");
    if (!before.v.empty() && difference(before, plain_of<FD>(target)).empty() && !(d.valid && d.m == before)) return complain("accepted", "the target is what it was before");
    if (auto x = insane(target.boundary()); !x.empty()) return complain("accepted", x);
    if (!d.valid) return complain("accepted", "a damaged file (" + d.why + ") is accepted");
    if (auto x = difference(d.m, plain_of<FD>(target)); !x.empty()) return complain("accepted", "read as another region: " + x);
  } else {
    if (d.valid) return complain("refused", "a valid file is refused");
    if (auto x = difference(before, plain_of<FD>(target)); !x.empty()) return complain("target", "the failed read changed the region: " + x);
  }
  rep().count(d.complete ? d.valid ? "kigumi.valid" : "kigumi.invalid" : "kigumi.incomplete");
}

inline void hostile_text(Case_ctx& c, int format) {
  Rng& rng = c.rng;
  auto m = random_polygons(rng, 8, 8);
  auto b = spell(rng, format, m, rng.chance(0.5));
  std::string how;
  switch (rng.below(6)) {
    case 0:
      b.resize(rng.below(b.size()));
      how = fmt("cut at %zu", b.size());
      break;
    case 1: b = damage_bytes(rng, b, how); break;
    case 2:
      b = (rng.chance(0.5) ? b.substr(0, rng.below(b.size())) : std::string{}) + garbage(rng, format);
      how = "garbage";
      break;
    default: b = damage_text(rng, b, how);
  }
  c.sig = mix64(c.sig, hash_str(b));
  if (c.idx % 37 == 0) rep().sample(std::string{format_name(format)} + ", " + how + ": " + shown(b).substr(0, 300));
  auto own = parse_text(format, b);
  Soup_options o;
  o.moderate = true;
  auto target = random_soup<FD>(rng, o);
  auto before = plain_of<FD>(target);
  std::string what;
  Outcome_of_read r;
  if (rng.chance(0.15)) {
    Scratch_file f{std::string{"h."} + format_name(format)};
    spill(f.path, b);
    r = watched(b.size(), [&] { return kigumi::read_triangle_soup(f.path, target); }, what);
  } else {
    std::istringstream in{b};
    r = watched(b.size(), [&] { return read_text(format, in, target); }, what);
  }
  auto complain = [&](const std::string& key, const std::string& t) {
    rep().violation(key, std::string{format_name(format)} + ", " + how + ": " + t + (what.empty() ? "" : " (" + what + ")") + ": " + shown(b));
  };
  if (r == Outcome_of_read::OK) {
    if (own.verdict == Text_mesh::INCOMPLETE) return complain("accepted", "a file that is not complete (" + own.why + ") is accepted");
    if (!before.v.empty() && difference(before, plain_of<FD>(target)).empty()) return complain("accepted", "the target is what it was before");
    if (auto x = insane(target); !x.empty()) return complain("accepted", x);
    if (own.verdict == Text_mesh::VALID) {
      auto got = plain_of<FD>(target);
      if (!same_points_and_faces(own.plain(), got)) return complain("accepted", "read as another mesh: " + difference(own.plain(), got));
    }
  } else {
    if (own.verdict == Text_mesh::VALID) return complain("refused", "a valid file is refused");
    if (auto x = difference(before, plain_of<FD>(target)); !x.empty()) return complain("target", "the failed read changed the mesh: " + x);
  }
  rep().count(std::string{format_name(format)} + (own.verdict == Text_mesh::VALID ? ".valid" : own.verdict == Text_mesh::INCOMPLETE ? ".incomplete" : ".unknown"));
}

inline void case_hostile(Case_ctx& c) {
  for (int i = 0; i < 10; ++i) {
    auto before = rep().num_violations;
    auto k = static_cast<int>(c.rng.below(5));
    if (k >= 3) {
      hostile_kigumi(c);
    } else {
      hostile_text(c, k);
    }
    if (rep().num_violations != before) return;
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------
// C10

// Accepts a number of bytes and then fails, in one of several ways.
class Full_buf : public std::streambuf {
 public:
  Full_buf(std::size_t limit, bool throws) : limit_{limit}, throws_{throws} {}
  std::string got;

 protected:
  int overflow(int ch) override {
    if (ch == traits_type::eof()) return 0;
    if (got.size() >= limit_) return fail();
    got += static_cast<char>(ch);
    return ch;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    auto room = limit_ - got.size();
    auto k = std::min(room, static_cast<std::size_t>(n));
    got.append(s, k);
    if (k < static_cast<std::size_t>(n)) fail();
    return static_cast<std::streamsize>(k);
  }

 private:
  int fail() {
    if (throws_) throw std::runtime_error("device full");
    return traits_type::eof();
  }
  std::size_t limit_;
  bool throws_;
};

// Gives a number of bytes, in small portions, and then reports an error of the device.
class Failing_buf : public std::streambuf {
 public:
  Failing_buf(std::string s, std::size_t portion) : s_{std::move(s)}, portion_{portion} {}
  bool failed{false};

 protected:
  int underflow() override {
    if (at_ >= s_.size()) {
      failed = true;
      throw std::runtime_error("device error");
    }
    auto n = std::min(portion_, s_.size() - at_);
    setg(s_.data() + at_, s_.data() + at_, s_.data() + at_ + n);
    at_ += n;
    return static_cast<unsigned char>(s_[at_ - n]);
  }

 private:
  std::string s_;
  std::size_t at_{0};
  std::size_t portion_;
};

struct File_limit {
  rlimit old{};
  explicit File_limit(std::size_t n) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit l{n, old.rlim_max};
    setrlimit(RLIMIT_FSIZE, &l);
  }
  ~File_limit() { setrlimit(RLIMIT_FSIZE, &old); }
};

// One thing that can be written and read in one format.
struct Subject {
  int format;  // 3: kigumi
  Soup_of<FD> soup;
  Region_of<FD> region;

  bool write(std::ostream& o) const { return format == 3 ? kigumi::write_kigumi_region(o, region) : write_text(format, o, soup); }
  bool write(const std::string& path) const { return format == 3 ? kigumi::write_kigumi_region(path, region) : kigumi::write_triangle_soup(path, soup); }
  bool read(std::istream& in) { return format == 3 ? kigumi::read_kigumi_region(in, region) : read_text(format, in, soup); }
  bool read(const std::string& path) { return format == 3 ? kigumi::read_kigumi_region(path, region) : kigumi::read_triangle_soup(path, soup); }
  Plain plain() const { return format == 3 ? plain_of<FD>(region) : plain_of<FD>(soup); }
};

inline Subject random_subject(Rng& rng, int format) {
  Soup_options o;
  o.moderate = true;
  o.min_faces = 1;
  if (rng.chance(0.3)) {  // more than one buffer
    o.max_vertices = 900;
    o.max_faces = 900;
  }
  Subject s{format, random_soup<FD>(rng, o), {}};
  s.region = Region_of<FD>{s.soup};
  // What is written depends on which coordinates are known to be doubles: evaluate them all.
  for (auto vi : s.soup.vertices()) s.soup.point(vi).exact();
  return s;
}

inline void case_faults(Case_ctx& c) {
  Rng& rng = c.rng;
  int format = static_cast<int>(rng.below(4));
  auto s = random_subject(rng, format);
  std::string full;
  {
    std::ostringstream o;
    if (!s.write(o)) throw Generator_error("writing failed");
    full = o.str();
  }
  auto ext = std::string{"."} + format_name(format);
  std::string what;
  auto complain = [&](const std::string& key, const std::string& t) {
    rep().violation(key, std::string{format_name(format)} + ": " + t + (what.empty() ? "" : " (" + what + ")") + fmt(" (%zu bytes)", full.size()));
  };
  auto point = [&] {
    switch (rng.below(4)) {
      case 0: return static_cast<std::size_t>(0);
      case 1: return full.size() - 1 - rng.below(std::min<std::size_t>(full.size(), 20));
      default: return static_cast<std::size_t>(rng.below(full.size()));
    }
  };
  Quiet q;
  for (int i = 0; i < 3; ++i) {
    auto at = point();
    // A stream that stops taking bytes.
    {
      Full_buf b{at, rng.chance(0.5)};
      std::ostream o{&b};
      auto r = attempt([&] { return s.write(o); }, what);
      if (r == Outcome_of_read::OK) return complain("write", fmt("success although the stream failed after %zu bytes", at));
      if (full.compare(0, b.got.size(), b.got) != 0) return complain("write", "other bytes were written before the failure");
      Full_buf enough{full.size(), true};
      std::ostream o2{&enough};
      if (attempt([&] { return s.write(o2); }, what) != Outcome_of_read::OK || enough.got != full) return complain("write", "failure although the stream took every byte");
      std::ostream broken{&enough};
      broken.setstate(std::ios::badbit);
      if (attempt([&] { return s.write(broken); }, what) == Outcome_of_read::OK) return complain("write", "success on a stream that had failed before");
      rep().count("write_faults.stream");
    }
    // A file that cannot grow.
    {
      Scratch_file f{"limit" + ext};
      Outcome_of_read r;
      {
        File_limit l{at};
        r = attempt([&] { return s.write(f.path); }, what);
      }
      auto got = slurp(f.path);
      if (r == Outcome_of_read::OK) return complain("write", fmt("success although only %zu bytes fit into the file", at));
      if (full.compare(0, got.size(), got) != 0) return complain("write", "other bytes were written before the failure");
      rep().count("write_faults.size_limit");
    }
    // A device that fails while it is read.
    {
      Failing_buf b{full.substr(0, at), 1 + rng.below(60)};
      std::istream in{&b};
      Subject t = random_subject(rng, format);
      auto before = t.plain();
      auto r = attempt([&] { return t.read(in); }, what);
      if (r == Outcome_of_read::OK && b.failed) return complain("read", fmt("success although the device failed after %zu bytes", at));
      if (r != Outcome_of_read::OK && t.plain() != before) return complain("read", "the failed read changed its target");
      rep().count("read_faults.stream");
      std::istringstream broken{full};
      broken.setstate(rng.chance(0.5) ? std::ios::badbit : std::ios::failbit);
      if (attempt([&] { return t.read(broken); }, what) == Outcome_of_read::OK) return complain("read", "success on a stream that had failed before");
    }
  }
  // A full device.
  {
    Scratch_file f{"full" + ext};
    if (symlink("/dev/full", f.path.c_str()) != 0) throw Generator_error("symlink");
    if (attempt([&] { return s.write(f.path); }, what) == Outcome_of_read::OK) return complain("write", "success on a full device");
    rep().count("write_faults.full_device");
  }
  // Paths that cannot be opened.
  {
    Subject t = random_subject(rng, format);
    auto before = t.plain();
    Scratch_file dir{"dir" + ext};
    std::filesystem::create_directory(dir.path);
    std::vector<std::string> paths{dir.path, "no/such/directory/x" + ext, "", ext + "/", std::string(300, 'x') + ext};
    if (format != 3) paths.push_back("x.unknown");
    for (const auto& p : paths) {
      if (attempt([&] { return s.write(p); }, what) == Outcome_of_read::OK) return complain("write", "success writing to '" + p.substr(0, 40) + "'");
    }
    paths.push_back(scratch("missing") + ext);
    for (const auto& p : paths) {
      if (attempt([&] { return t.read(p); }, what) == Outcome_of_read::OK) return complain("read", "success reading '" + p.substr(0, 40) + "'");
      if (t.plain() != before) return complain("read", "the failed read changed its target");
    }
    std::filesystem::remove(dir.path);
    rep().count("paths", static_cast<long>(2 * paths.size() - 1));
  }
  // All is well otherwise.
  {
    Scratch_file f{"good" + ext};
    if (attempt([&] { return s.write(f.path); }, what) != Outcome_of_read::OK) return complain("write", "failure without a fault");
    if (slurp(f.path) != full) return complain("write", "the file holds other bytes than the stream");
    Subject t = random_subject(rng, format);
    if (attempt([&] { return t.read(f.path); }, what) != Outcome_of_read::OK) return complain("read", "failure without a fault");
  }
  c.sig = hash_str(full);
  if (c.idx % 37 == 0) rep().sample(fmt("%zu bytes with faults, beginning with ", full.size()) + shown(full.substr(0, 200)));
  c.nontrivial = true;
}
