// Independent encoders and decoders of the file formats, and the plain mesh they produce. They share no
// code with the library under test.
#pragma once

#include "common.h"

#include <gmpxx.h>
#include <kigumi/Null_data.h>

#include <cmath>
#include <limits>
#include <optional>

using Q = mpq_class;

inline Q to_q(const CGAL::Exact_rational& r) {
  std::ostringstream o;
  o.imbue(std::locale::classic());
  o << r;
  Q q{o.str()};
  q.canonicalize();
  return q;
}
inline Q to_q(const FT& x) { return to_q(CGAL::exact(x)); }

// A mesh as plain data: exact coordinates, indices, and the data of the faces as text.
struct Plain {
  int kind{2};
  std::vector<std::array<Q, 3>> v;
  std::vector<std::array<std::uint64_t, 3>> f;
  std::vector<std::string> d;
  bool operator==(const Plain&) const = default;
};

inline bool same_points_and_faces(const Plain& a, const Plain& b) { return a.v == b.v && a.f == b.f; }

inline std::string plain_text(const Plain& m, std::size_t limit = 40) {
  std::string s = fmt("kind %d, %zu vertices, %zu faces:", m.kind, m.v.size(), m.f.size());
  for (std::size_t i = 0; i < m.v.size() && i < limit; ++i)
    s += " (" + m.v[i][0].get_str() + "," + m.v[i][1].get_str() + "," + m.v[i][2].get_str() + ")";
  for (std::size_t i = 0; i < m.f.size() && i < limit; ++i)
    s += fmt(" [%llu %llu %llu]", (unsigned long long)m.f[i][0], (unsigned long long)m.f[i][1], (unsigned long long)m.f[i][2]);
  return s;
}

inline std::string difference(const Plain& a, const Plain& b) {
  if (a.kind != b.kind) return fmt("kind %d and %d", a.kind, b.kind);
  if (a.v.size() != b.v.size()) return fmt("%zu and %zu vertices", a.v.size(), b.v.size());
  if (a.f.size() != b.f.size()) return fmt("%zu and %zu faces", a.f.size(), b.f.size());
  for (std::size_t i = 0; i < a.v.size(); ++i)
    for (int k = 0; k < 3; ++k)
      if (a.v[i][k] != b.v[i][k]) return fmt("coordinate %d of vertex %zu: ", k, i) + a.v[i][k].get_str().substr(0, 200) + " and " + b.v[i][k].get_str().substr(0, 200);
  for (std::size_t i = 0; i < a.f.size(); ++i)
    if (a.f[i] != b.f[i])
      return fmt("face %zu: %llu %llu %llu and %llu %llu %llu", i, (unsigned long long)a.f[i][0], (unsigned long long)a.f[i][1],
                 (unsigned long long)a.f[i][2], (unsigned long long)b.f[i][0], (unsigned long long)b.f[i][1], (unsigned long long)b.f[i][2]);
  for (std::size_t i = 0; i < a.d.size() && i < b.d.size(); ++i)
    if (a.d[i] != b.d[i]) return fmt("data of face %zu", i);
  if (a.d.size() != b.d.size()) return "number of face data";
  return {};
}

// ---------------------------------------------------------------------------------------------
// Face data

template <class D>
struct Data_codec;

template <>
struct Data_codec<kigumi::Null_data> {
  static constexpr const char* name = "none";
  static kigumi::Null_data make(std::uint64_t) { return {}; }
  static std::string text(const kigumi::Null_data&) { return {}; }
  static std::string bytes(const kigumi::Null_data&) { return {}; }
};

template <class D>
struct Plain_codec {
  static std::string text(const D& d) { return bytes(d); }
  static std::string bytes(const D& d) {
    unsigned char b[sizeof(D)];
    std::memcpy(b, &d, sizeof d);  // the machines this runs on are little-endian
    return {reinterpret_cast<const char*>(b), sizeof d};
  }
};
template <>
struct Data_codec<std::int32_t> : Plain_codec<std::int32_t> {
  static constexpr const char* name = "int32";
  static std::int32_t make(std::uint64_t x) { return static_cast<std::int32_t>(x); }
};
template <>
struct Data_codec<std::uint16_t> : Plain_codec<std::uint16_t> {
  static constexpr const char* name = "uint16";
  static std::uint16_t make(std::uint64_t x) { return static_cast<std::uint16_t>(x); }
};
template <>
struct Data_codec<double> : Plain_codec<double> {
  static constexpr const char* name = "double";
  static double make(std::uint64_t x) { return static_cast<double>(static_cast<std::int64_t>(x)) / 1024; }
};
template <>
struct Data_codec<FD> {
  static constexpr const char* name = "record";
  static FD make(std::uint64_t x) { return FD{static_cast<std::int32_t>(x & 0xffffff)}; }
  static std::string text(const FD& d) { return std::to_string(d.id) + ":" + d.text; }
  static std::string bytes(const FD& d) {
    auto n = static_cast<std::int32_t>(d.text.size());
    return Data_codec<std::int32_t>::bytes(d.id) + Data_codec<std::int32_t>::bytes(n) + d.text;
  }
};

// ---------------------------------------------------------------------------------------------
// .kigumi

// The bytes of a file, and what is where.
struct Encoded {
  std::string bytes;
  std::vector<std::pair<std::size_t, char>> fields;  // offset and: k kind, n count of vertices or faces, b flag, x double, c length, i index
  void u8(int x, char what) {
    fields.emplace_back(bytes.size(), what);
    bytes += static_cast<char>(x);
  }
  void i32(std::int64_t x, char what) {
    fields.emplace_back(bytes.size(), what);
    for (int i = 0; i < 4; ++i) bytes += static_cast<char>((static_cast<std::uint64_t>(x) >> (8 * i)) & 0xff);
  }
  void f64(double d) {
    fields.emplace_back(bytes.size(), 'x');
    std::uint64_t u;
    std::memcpy(&u, &d, 8);
    for (int i = 0; i < 8; ++i) bytes += static_cast<char>((u >> (8 * i)) & 0xff);
  }
  void magnitude(const mpz_class& z, int leading_zeros = 0) {
    std::string s(static_cast<std::size_t>(leading_zeros), '\0');
    if (z != 0) {
      std::string b((mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8, '\0');
      std::size_t n{};
      mpz_export(b.data(), &n, 1, 1, 0, 0, z.get_mpz_t());
      s += b;
    }
    i32(static_cast<std::int64_t>(s.size()), 'c');
    bytes += s;
  }
  void rational(const Q& q) {
    u8(q < 0 ? 1 : 0, 'b');
    magnitude(abs(q.get_num()));
    magnitude(q.get_den());
  }
};

inline bool is_double(const Q& q) {
  double d = q.get_d();
  return std::isfinite(d) && Q(d) == q;
}

template <class D>
Encoded encode_kigumi(const Plain& m, const std::vector<D>& data, Rng& rng) {
  Encoded e;
  e.u8(m.kind, 'k');
  e.i32(static_cast<std::int64_t>(m.v.size()), 'n');
  e.i32(static_cast<std::int64_t>(m.f.size()), 'n');
  for (const auto& p : m.v) {
    bool doubles = is_double(p[0]) && is_double(p[1]) && is_double(p[2]);
    if (doubles && rng.chance(0.8)) {
      e.u8(0, 'b');
      for (const auto& x : p) e.f64(x.get_d());
    } else {
      e.u8(1, 'b');
      for (const auto& x : p) e.rational(x);
    }
  }
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    for (auto x : m.f[i]) e.i32(static_cast<std::int64_t>(x), 'i');
    e.bytes += Data_codec<D>::bytes(data[i]);
  }
  return e;
}

struct Decoded {
  bool complete{};    // all that the counts promise is there
  bool valid{};       // and makes a region
  bool canonical{};   // and in the one form writers use
  std::size_t used{}; // bytes
  std::size_t exact{}, doubles{};
  std::string why;
  Plain m;
};

struct Byte_reader {
  const std::string& s;
  std::size_t at{0};
  bool ok{true};
  std::string take(std::size_t n) {
    if (!ok || n > s.size() - at) {
      ok = false;
      return {};
    }
    at += n;
    return s.substr(at - n, n);
  }
  int u8() {
    auto b = take(1);
    return ok ? static_cast<unsigned char>(b[0]) : 0;
  }
  std::int32_t i32() {
    auto b = take(4);
    std::uint32_t x = 0;
    if (ok)
      for (int i = 0; i < 4; ++i) x |= static_cast<std::uint32_t>(static_cast<unsigned char>(b[i])) << (8 * i);
    return static_cast<std::int32_t>(x);
  }
  double f64() {
    auto b = take(8);
    std::uint64_t x = 0;
    if (ok)
      for (int i = 0; i < 8; ++i) x |= static_cast<std::uint64_t>(static_cast<unsigned char>(b[i])) << (8 * i);
    double d;
    std::memcpy(&d, &x, 8);
    return d;
  }
};

template <class D>
bool take_data(Byte_reader& r, std::string& text) {
  if constexpr (std::is_same_v<D, kigumi::Null_data>) {
    return true;
  } else if constexpr (std::is_same_v<D, FD>) {
    auto id = r.i32();
    auto n = r.i32();
    if (!r.ok || n < 0 || n > 64) return false;
    text = std::to_string(id) + ":" + r.take(static_cast<std::size_t>(n));
    return r.ok;
  } else {
    text = r.take(sizeof(D));
    return r.ok;
  }
}

template <class D>
Decoded decode_kigumi(const std::string& s) {
  Decoded d;
  Byte_reader r{s};
  auto stop = [&](const std::string& why) {
    d.why = why;
    return d;
  };
  d.m.kind = r.u8();
  auto nv = r.i32();
  auto nf = r.i32();
  if (!r.ok) return stop("header");
  if (nv < 0 || nf < 0) return stop("negative count");
  bool finite = true, nonzero = true, range = true;
  d.canonical = true;
  for (std::int32_t i = 0; i < nv; ++i) {
    auto flag = r.u8();
    if (flag > 1) d.canonical = false;
    std::array<Q, 3> p;
    if (flag == 0) {
      ++d.doubles;
      for (auto& x : p) {
        auto v = r.f64();
        if (std::isfinite(v)) {
          x = v;
        } else {
          finite = false;
        }
      }
    } else {
      ++d.exact;
      for (auto& x : p) {
        auto neg = r.u8();
        if (neg > 1) d.canonical = false;
        mpz_class z[2];
        for (auto& y : z) {
          auto n = r.i32();
          if (r.ok && n < 0) return stop("negative length");
          auto b = r.take(static_cast<std::size_t>(n));
          if (!r.ok) return stop("vertices");
          if (!b.empty() && b[0] == 0) d.canonical = false;
          mpz_import(y.get_mpz_t(), b.size(), 1, 1, 0, 0, b.data());
        }
        if (z[1] == 0) {
          nonzero = false;
          z[1] = 1;
        }
        if (gcd(z[0], z[1]) != 1 || (z[0] == 0 && neg)) d.canonical = false;
        x = Q(z[0], z[1]);
        x.canonicalize();
        if (neg) x = -x;
      }
    }
    if (!r.ok) return stop("vertices");
    d.m.v.push_back(p);
  }
  for (std::int32_t i = 0; i < nf; ++i) {
    std::array<std::uint64_t, 3> f{};
    for (auto& x : f) {
      auto k = r.i32();
      if (k < 0 || k >= nv) range = false;
      x = static_cast<std::uint64_t>(static_cast<std::int64_t>(k));
    }
    std::string t;
    if (!r.ok || !take_data<D>(r, t)) return stop("faces");
    d.m.f.push_back(f);
    d.m.d.push_back(t);
  }
  d.complete = true;
  d.used = r.at;
  if (d.m.kind > 2) return stop("kind");
  if (!finite) return stop("coordinate is not finite");
  if (!nonzero) return stop("denominator is zero");
  if (!range) return stop("index out of range");
  if ((d.m.kind == 2) != (nf > 0)) return stop("kind and number of faces");
  d.valid = true;
  return d;
}

// ---------------------------------------------------------------------------------------------
// Text formats: a reader of a conservative subset. It says that the text is certainly a mesh, is certainly
// incomplete, or that it does not know.

struct Text_mesh {
  enum { VALID, INCOMPLETE, UNKNOWN } verdict{UNKNOWN};
  std::string why;
  std::vector<std::array<double, 3>> v;
  std::vector<std::vector<std::uint64_t>> polygons;

  Plain plain() const {
    Plain m;
    for (const auto& p : v) m.v.push_back({Q(p[0]), Q(p[1]), Q(p[2])});
    for (const auto& g : polygons)
      for (std::size_t i = 2; i < g.size(); ++i) m.f.push_back({g[0], g[i - 1], g[i]});
    return m;
  }
};

inline std::vector<std::string> words(const std::string& line) {
  std::vector<std::string> r;
  std::string w;
  for (char c : line) {
    if (c == ' ' || c == '\t' || c == '\r') {
      if (!w.empty()) r.push_back(std::move(w));
      w.clear();
    } else {
      w += c;
    }
  }
  if (!w.empty()) r.push_back(w);
  return r;
}

inline std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r;
  std::string l;
  bool open = false;
  for (char c : s) {
    if (c == '\n') {
      r.push_back(std::move(l));
      l.clear();
      open = false;
    } else {
      l += c;
      open = true;
    }
  }
  if (open) r.push_back(l);
  return r;
}

// A decimal number whose value is a finite double and no zero that should not be one.
inline std::optional<double> any_number(const std::string& w) {
  std::size_t i = 0, digits = 0, exp_digits = 0;
  bool nonzero = false;
  auto run = [&](std::size_t& n, bool mantissa) {
    for (; i < w.size() && std::isdigit(static_cast<unsigned char>(w[i])); ++i) {
      ++n;
      if (mantissa && w[i] != '0') nonzero = true;
    }
  };
  if (i < w.size() && (w[i] == '+' || w[i] == '-')) ++i;
  run(digits, true);
  if (i < w.size() && w[i] == '.') {
    ++i;
    run(digits, true);
  }
  if (digits == 0 || digits > 400) return {};
  if (i < w.size() && (w[i] == 'e' || w[i] == 'E')) {
    ++i;
    if (i < w.size() && (w[i] == '+' || w[i] == '-')) ++i;
    run(exp_digits, false);
    if (exp_digits == 0 || exp_digits > 4) return {};
  }
  if (i != w.size()) return {};
  double d = std::strtod(w.c_str(), nullptr);
  if (!std::isfinite(d) || (d == 0 && nonzero)) return {};
  return d;
}

inline std::optional<long> plain_int(const std::string& w) {
  std::size_t i = w.size() > 1 && w[0] == '-' ? 1 : 0;
  if (w.size() == i || w.size() - i > 9) return {};
  for (auto j = i; j < w.size(); ++j)
    if (!std::isdigit(static_cast<unsigned char>(w[j]))) return {};
  return std::strtol(w.c_str(), nullptr, 10);
}

// Words that no reader takes for a number.
inline bool no_number(const std::string& w) { return std::isalpha(static_cast<unsigned char>(w[0])) && !std::strchr("nNiI", w[0]); }
inline bool no_index(const std::string& w) { return std::isalpha(static_cast<unsigned char>(w[0])) != 0; }

inline bool printable(const std::string& s) {
  for (unsigned char c : s)
    if (c >= 0x7f || (c < 0x20 && c != '\n' && c != '\r' && c != '\t')) return false;
  return true;
}

inline Text_mesh parse_obj(const std::string& s) {
  Text_mesh m;
  if (!printable(s)) return m;
  for (const auto& l : lines(s)) {
    auto w = words(l);
    if (w.empty() || w[0][0] == '#') continue;
    if (w[0] == "v") {
      std::array<double, 3> p{};
      if (w.size() < 4) {
        m.verdict = Text_mesh::INCOMPLETE;
        m.why = "vertex line";
        return m;
      }
      for (int k = 0; k < 3; ++k) {
        auto d = any_number(w[k + 1]);
        if (!d && (w[k + 1][0] == '#' || no_number(w[k + 1]))) {
          m.verdict = Text_mesh::INCOMPLETE;
          m.why = "unreadable coordinate";
        }
        if (!d) return m;
        p[k] = *d;
      }
      m.v.push_back(p);
    } else if (w[0] == "f") {
      std::vector<std::uint64_t> g;
      for (std::size_t i = 1; i < w.size(); ++i) {
        if (w[i][0] == '#') break;
        bool unreadable = std::isalpha(static_cast<unsigned char>(w[i][0])) || (w[i].size() > 19 && w[i].find_first_not_of("0123456789") == std::string::npos && w[i][0] != '0');
        if (unreadable) {
          m.verdict = Text_mesh::INCOMPLETE;
          m.why = "unreadable index";
          return m;
        }
        auto k = plain_int(w[i].substr(0, w[i].find('/')));
        auto rest = w[i].find('/') == std::string::npos ? std::string{} : w[i].substr(w[i].find('/'));
        for (char c : rest)
          if (c != '/' && c != '-' && !std::isdigit(static_cast<unsigned char>(c))) return m;
        if (k && *k == 0) {
          m.verdict = Text_mesh::INCOMPLETE;
          m.why = "index 0";
        }
        if (!k || *k == 0) return m;
        g.push_back(static_cast<std::uint64_t>(*k > 0 ? *k - 1 : static_cast<long>(m.v.size()) + *k));
      }
      if (g.size() < 3) return m;
      m.polygons.push_back(g);
    }
  }
  for (const auto& g : m.polygons)
    for (auto x : g)
      if (x >= m.v.size()) {
        m.why = "index";
        return m;
      }
  m.verdict = Text_mesh::VALID;
  return m;
}

inline Text_mesh parse_off(const std::string& s) {
  Text_mesh m;
  if (!printable(s)) return m;
  std::vector<std::vector<std::string>> rows;
  bool comments = false;
  for (const auto& l : lines(s)) {
    auto w = words(l);
    if (w.empty() || w[0][0] == '#') continue;
    for (auto& x : w) comments = comments || x.find('#') != std::string::npos;
    rows.push_back(w);
  }
  auto incomplete = [&](const char* why) {
    m.verdict = Text_mesh::INCOMPLETE;
    m.why = why;
    return m;
  };
  if (rows.size() < 2) return incomplete("header");
  if (comments) return m;
  const auto& h = rows[0][0];
  if (h.find("OFF") == std::string::npos) return incomplete("signature");
  if (rows[0].size() != 1 || (h != "OFF" && h != "COFF" && h != "NOFF" && h != "CNOFF" && h != "STOFF" && h != "STCOFF" && h != "STNOFF" && h != "STCNOFF")) return m;
  if (rows[1].size() < 2) return incomplete("counts");
  if (no_index(rows[1][0]) || no_index(rows[1][1])) return incomplete("unreadable counts");
  auto nv = plain_int(rows[1][0]);
  auto nf = plain_int(rows[1][1]);
  if (!nv || !nf || *nv < 0 || *nf < 0) return m;
  if (rows.size() < 2 + static_cast<std::size_t>(*nv) + static_cast<std::size_t>(*nf)) return incomplete("lines");
  if (rows.size() > 2 + static_cast<std::size_t>(*nv) + static_cast<std::size_t>(*nf)) return m;
  for (long i = 0; i < *nv; ++i) {
    const auto& w = rows[2 + i];
    if (w.size() < 3) return incomplete("vertex line");
    std::array<double, 3> p{};
    for (int k = 0; k < 3; ++k) {
      auto d = any_number(w[k]);
      if (!d && no_number(w[k])) return incomplete("unreadable coordinate");
      if (!d) return m;
      p[k] = *d;
    }
    m.v.push_back(p);
  }
  for (long i = 0; i < *nf; ++i) {
    const auto& w = rows[2 + *nv + i];
    auto n = plain_int(w[0]);
    if (no_index(w[0])) return incomplete("unreadable number of corners");
    if (!n || *n < 0) return m;
    if (w.size() < 1 + static_cast<std::size_t>(*n)) return incomplete("face line");
    if (*n < 3) return m;
    std::vector<std::uint64_t> g;
    for (long k = 0; k < *n; ++k) {
      auto x = plain_int(w[1 + k]);
      if (no_index(w[1 + k])) return incomplete("unreadable index");
      if (!x || *x < 0 || *x >= *nv) return m;
      g.push_back(static_cast<std::uint64_t>(*x));
    }
    m.polygons.push_back(g);
  }
  m.verdict = Text_mesh::VALID;
  return m;
}

inline Text_mesh parse_ply(const std::string& s) {
  Text_mesh m;
  if (!printable(s)) return m;
  struct Prop {
    bool list;
    std::string name;
  };
  struct Elem {
    std::string name;
    long n;
    std::vector<Prop> p;
  };
  std::vector<Elem> el;
  auto all = lines(s);
  std::size_t i = 0;
  int state = 0;
  auto incomplete = [&](const char* why) {
    m.verdict = Text_mesh::INCOMPLETE;
    m.why = why;
    return m;
  };
  for (; i < all.size() && state < 3; ++i) {
    auto w = words(all[i]);
    if (w.empty() || w[0] == "comment") continue;
    if (state == 0) {
      if (w[0] != "ply") return incomplete("signature");
      if (w.size() != 1) return m;
      state = 1;
    } else if (state == 1) {
      if (w[0] != "format") return incomplete("format");
      if (w != std::vector<std::string>{"format", "ascii", "1.0"}) return m;
      state = 2;
    } else if (w[0] == "element") {
      if (w.size() < 3 || no_index(w[2])) return incomplete("element");
      if (w.size() != 3) return m;
      auto n = plain_int(w[2]);
      if (!n || *n < 0) return m;
      el.push_back({w[1], *n, {}});
    } else if (w[0] == "property") {
      if (el.empty() || w.size() < 3) return incomplete("property");
      if (w.size() == 5 && w[1] == "list") {
        el.back().p.push_back({true, w[4]});
      } else if (w.size() == 3 && w[1] != "list") {
        el.back().p.push_back({false, w[2]});
      } else {
        return m;
      }
    } else if (w == std::vector<std::string>{"end_header"}) {
      state = 3;
    } else {
      return m;
    }
  }
  if (state < 3) return incomplete("header");
  int seen_v = 0, seen_f = 0;
  bool missing = false, doubtful = false;
  for (const auto& e : el) {
    int x = 0, y = 0, z = 0, l = 0;
    for (const auto& p : e.p) {
      if (!p.list && p.name == "x") ++x;
      if (!p.list && p.name == "y") ++y;
      if (!p.list && p.name == "z") ++z;
      if (p.list && (p.name == "vertex_index" || p.name == "vertex_indices")) ++l;
    }
    if (e.name == "vertex") {
      ++seen_v;
      if (x == 0 || y == 0 || z == 0) missing = true;
      if (x > 1 || y > 1 || z > 1) doubtful = true;
    }
    if (e.name == "face") {
      ++seen_f;
      if (l == 0) missing = true;
      if (l > 1) doubtful = true;
    }
  }
  if (seen_v == 0 || seen_f == 0) return incomplete("elements");
  if (seen_v != 1 || seen_f != 1) return m;
  if (missing) return incomplete("properties");
  if (doubtful) return m;
  std::size_t total = 0;
  for (const auto& e : el) total += static_cast<std::size_t>(e.n);
  if (all.size() - i < total) return incomplete("lines");
  if (all.size() - i > total) return m;
  for (const auto& e : el)
    for (long r = 0; r < e.n; ++r, ++i) {
      auto w = words(all[i]);
      bool mine = e.name == "vertex" || e.name == "face";
      std::size_t at = 0;
      std::array<double, 3> p{};
      std::vector<std::uint64_t> g;
      for (const auto& q : e.p) {
        if (at >= w.size()) return mine ? incomplete("row") : m;
        if (!q.list) {
          if (e.name == "vertex" && (q.name == "x" || q.name == "y" || q.name == "z")) {
            auto d = any_number(w[at]);
            if (!d && no_number(w[at])) return incomplete("unreadable coordinate");
            if (!d) return m;
            p[static_cast<std::size_t>(q.name[0] - 'x')] = *d;
          }
          ++at;
          continue;
        }
        if (mine && no_index(w[at])) return incomplete("unreadable length of a list");
        auto n = plain_int(w[at++]);
        if (!n || *n < 0) return m;
        if (w.size() - at < static_cast<std::size_t>(*n)) return mine ? incomplete("list") : m;
        if (e.name == "face" && (q.name == "vertex_index" || q.name == "vertex_indices")) {
          for (long k = 0; k < *n; ++k) {
            auto x = plain_int(w[at + k]);
            if (no_index(w[at + k])) return incomplete("unreadable index");
            if (!x || *x < 0) return m;
            g.push_back(static_cast<std::uint64_t>(*x));
          }
          if (g.size() < 3) return m;
        }
        at += static_cast<std::size_t>(*n);
      }
      if (e.name == "vertex") m.v.push_back(p);
      if (e.name == "face") m.polygons.push_back(g);
    }
  for (const auto& g : m.polygons)
    for (auto x : g)
      if (x >= m.v.size()) return m;
  m.verdict = Text_mesh::VALID;
  return m;
}

inline Text_mesh parse_text(int format, const std::string& s) { return format == 0 ? parse_obj(s) : format == 1 ? parse_off(s) : parse_ply(s); }
inline const char* format_name(int format) { return format == 0 ? "obj" : format == 1 ? "off" : format == 2 ? "ply" : "kigumi"; }
