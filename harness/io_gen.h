// Generators of meshes for the file formats, and of the many legal spellings of a mesh as text.
#pragma once

#include "io_codec.h"

#include <charconv>

// A finite double of any kind.
inline double random_double(Rng& rng) {
  switch (rng.below(8)) {
    case 0: return rng.range(-3, 3);
    case 1: return rng.real(-10, 10);
    case 2: return static_cast<double>(rng.range(-1000, 1000)) / 64;
    case 3: {
      for (;;) {
        std::uint64_t u = rng.next();
        double d;
        std::memcpy(&d, &u, 8);
        if (std::isfinite(d)) return d;
      }
    }
    case 4: return std::ldexp(1 + rng.unit(), rng.range(-1022, 1022)) * (rng.chance(0.5) ? 1 : -1);
    case 5: return std::ldexp(static_cast<double>(1 + rng.below(1000)), -1074);
    case 6: {
      const double d[] = {0.0, -0.0, 0.1, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 4.9e-324, 2.2250738585072014e-308, 1e22, 1e23, 9007199254740993.0, 123456789012345678.0};
      return d[rng.below(sizeof d / sizeof *d)];
    }
    default: return rng.real(-1, 1) * std::pow(10.0, rng.range(-12, 12));
  }
}

inline mpz_class random_int(Rng& rng, int bits) {
  mpz_class z = 0;
  for (int i = 0; i < bits; i += 32) z = (z << 32) + static_cast<unsigned long>(rng.next() >> 32);
  z >>= static_cast<unsigned>(rng.range(0, std::min(bits, 31)));
  return z;
}

inline CGAL::Exact_rational to_exact(const Q& q) {
  return CGAL::Exact_rational(q.get_str());
}

// A coordinate of any kind, evaluated or not.
inline FT random_ft(Rng& rng, bool moderate = false) {
  switch (rng.below(7)) {
    case 0:
    case 1: {
      for (;;) {
        double d = random_double(rng);
        if (!moderate || (std::fabs(d) < 1e100 && (d == 0 || std::fabs(d) > 1e-100))) return FT(d);
      }
    }
    case 2: return FT(rng.range(-20, 20)) / FT(rng.range(1, 20));
    case 3: {
      FT x = rng.range(1, 9);
      for (int i = rng.range(1, 6); i > 0; --i) {
        FT y = rng.chance(0.5) ? FT(rng.real(-3, 3)) : FT(rng.range(1, 9));
        switch (rng.below(4)) {
          case 0: x = x + y; break;
          case 1: x = x - y; break;
          case 2: x = x * y; break;
          default:
            if (y != 0) x = x / y;
        }
      }
      return x;
    }
    case 4: {  // a double, but the library does not know without evaluating it
      FT x = FT(rng.range(1, 50)) / FT(3) * FT(3);
      if (rng.chance(0.5)) x.exact();
      return x;
    }
    case 5: {
      int bits = moderate ? rng.range(1, 200) : 1 << rng.range(0, 13);
      mpz_class n = random_int(rng, bits), d = random_int(rng, moderate ? bits : 1 << rng.range(0, 13)) + 1;
      Q q(n, d);
      q.canonicalize();
      if (rng.chance(0.5)) q = -q;
      return FT(to_exact(q));
    }
    default: return FT(0);
  }
}

template <class D>
using Soup_of = kigumi::Triangle_soup<K, D>;
template <class D>
using Region_of = kigumi::Region<K, D>;

struct Soup_options {
  bool moderate{false};
  int max_vertices{14};
  int max_faces{20};
  int min_faces{0};
};

// Any vertices, any faces: the formats do not care.
template <class D>
Soup_of<D> random_soup(Rng& rng, const Soup_options& o) {
  Soup_of<D> s;
  int nv = rng.range(3, o.max_vertices);
  int mode = rng.range(0, 3);
  for (int i = 0; i < nv; ++i) {
    P p;
    if (mode == 0) {
      p = P{random_double(rng), random_double(rng), random_double(rng)};
      if (o.moderate) p = P{rng.real(-5, 5), rng.range(-5, 5), rng.real(-1e-5, 1e-5)};
    } else {
      p = P{random_ft(rng, o.moderate), random_ft(rng, o.moderate), random_ft(rng, o.moderate)};
      if (mode == 2 || (mode == 3 && rng.chance(0.5))) p.exact();
    }
    s.add_vertex(p);
  }
  int nf = rng.range(o.min_faces, o.max_faces);
  for (int i = 0; i < nf; ++i) {
    auto x = [&] { return Vertex_index{rng.below(static_cast<std::uint64_t>(nv))}; };
    auto fi = s.add_face({x(), x(), x()});
    s.data(fi) = Data_codec<D>::make(rng.next());
  }
  return s;
}

template <class D>
Plain plain_of(const Soup_of<D>& s, int kind = 2) {
  Plain m;
  m.kind = kind;
  for (auto vi : s.vertices()) {
    const auto& p = s.point(vi);
    m.v.push_back({to_q(p.x()), to_q(p.y()), to_q(p.z())});
  }
  for (auto fi : s.faces()) {
    const auto& f = s.face(fi);
    m.f.push_back({f[0].idx(), f[1].idx(), f[2].idx()});
    m.d.push_back(Data_codec<D>::text(s.data(fi)));
  }
  return m;
}

template <class D>
Plain plain_of(const Region_of<D>& r) {
  return plain_of(r.boundary(), r.is_empty() ? 0 : r.is_full() ? 1 : 2);
}

// ---------------------------------------------------------------------------------------------
// Spellings

inline std::string spell_number(Rng& rng, double d) {
  std::string s;
  switch (rng.below(5)) {
    case 0: s = fmt("%.17g", d); break;
    case 1: s = fmt("%.20e", d); break;
    case 2: {
      char b[64];
      auto r = std::to_chars(b, b + sizeof b, d);
      s.assign(b, r.ptr);
      break;
    }
    case 3:
      s = fmt("%.17G", d);
      break;
    default:
      if (std::fabs(d) < 1e15 && (d == 0 || std::fabs(d) > 1e-5)) {
        s = fmt("%.30f", d);
        while (rng.chance(0.9) && s.back() == '0') s.pop_back();
        if (s.back() == '.' && rng.chance(0.5)) s.pop_back();
      } else {
        s = fmt("%.17e", d);
      }
  }
  if (s[0] != '-' && rng.chance(0.1)) s = "+" + s;
  if (s.rfind("0.", 0) == 0 && s.size() > 2 && rng.chance(0.2)) s = s.substr(1);
  return s;
}

struct Speller {
  Rng& rng;
  std::string out;
  bool plain;     // the simplest spelling
  int eol;        // 0: \n, 1: \r\n, 2: both
  bool comments;  // where the format has them on lines of their own
  std::vector<std::string> row;

  Speller(Rng& r, bool p) : rng{r}, plain{p}, eol{p ? 0 : static_cast<int>(r.below(6))}, comments{!p && r.chance(0.5)} {}

  Speller& operator<<(const std::string& w) {
    row.push_back(w);
    return *this;
  }
  Speller& operator<<(double d) { return *this << (plain ? fmt("%.17g", d) : spell_number(rng, d)); }
  Speller& operator<<(std::uint64_t x) { return *this << std::to_string(x); }
  Speller& operator<<(long x) { return *this << std::to_string(x); }
  void break_line() { out += eol == 1 || (eol == 2 && rng.chance(0.5)) ? "\r\n" : "\n"; }
  std::string gap() {
    if (plain || rng.chance(0.8)) return " ";
    const char* g[] = {"  ", "\t", " \t ", "    "};
    return g[rng.below(4)];
  }
  void end(bool may_indent = true, const std::string& comment = {}) {
    if (!plain && may_indent && rng.chance(0.05)) out += gap();
    for (std::size_t i = 0; i < row.size(); ++i) out += (i ? gap() : std::string{}) + row[i];
    if (!comment.empty()) out += gap() + comment;
    if (!plain && rng.chance(0.05)) out += gap();
    row.clear();
    break_line();
  }
  // Lines of no meaning in OBJ and OFF.
  void noise() {
    while (comments && rng.chance(0.15)) {
      const char* c[] = {"", "# a comment", "#", "   ", "\t# v 1 2 3", "#f 1 2 3", "##"};
      out += c[rng.below(7)];
      break_line();
    }
  }
  std::string finish() {
    if (!plain && rng.chance(0.15)) {
      while (!out.empty() && (out.back() == '\n' || out.back() == '\r')) out.pop_back();
    }
    return std::move(out);
  }
  std::string word() {
    const char* w[] = {"1", "0.5", "-3", "255", "abc", "1e5", "x/y", "nan"};
    return w[rng.below(8)];
  }
};

inline Text_mesh random_polygons(Rng& rng, int max_v, int max_f) {
  Text_mesh m;
  m.verdict = Text_mesh::VALID;
  int nv = rng.range(3, max_v), nf = rng.range(0, max_f);
  bool nasty = rng.chance(0.6);
  for (int i = 0; i < nv; ++i) {
    std::array<double, 3> p;
    for (auto& x : p) x = nasty ? random_double(rng) : rng.real(-10, 10);
    m.v.push_back(p);
  }
  for (int i = 0; i < nf; ++i) {
    std::vector<std::uint64_t> g(static_cast<std::size_t>(rng.chance(0.7) ? 3 : rng.range(4, 8)));
    for (auto& x : g) x = rng.below(static_cast<std::uint64_t>(nv));
    m.polygons.push_back(g);
  }
  return m;
}

inline std::string spell_obj(Rng& rng, const Text_mesh& m, bool plain) {
  Speller s{rng, plain};
  auto extras = [&] {
    s.noise();
    if (plain) return;
    while (rng.chance(0.1)) {
      const char* x[] = {"vt 0.5 0.25", "vn 0 0 1", "o thing", "g a b", "s off", "usemtl stone", "mtllib a.mtl", "vp 0.3", "l 1 2"};
      s << std::string{x[rng.below(9)]};
      s.end();
    }
  };
  bool mixed = !plain && rng.chance(0.3);  // faces as soon as their vertices are there
  bool negative = !plain && rng.chance(0.4);
  bool coloured = !plain && rng.chance(0.2);
  bool inlined = !plain && rng.chance(0.1);
  std::size_t next = 0;
  std::size_t nv = 0;
  auto face = [&](const std::vector<std::uint64_t>& g) {
    extras();
    s << std::string{"f"};
    int slashes = plain ? 0 : rng.range(0, 4);
    for (auto x : g) {
      auto k = negative && rng.chance(0.7) ? static_cast<long>(x) - static_cast<long>(nv) : static_cast<long>(x) + 1;
      auto w = std::to_string(k);
      if (slashes == 1) w += "/" + std::to_string(rng.range(1, 9));
      if (slashes == 2) w += "//" + std::to_string(rng.range(1, 9));
      if (slashes == 3) w += fmt("/%d/%d", rng.range(-9, 9), rng.range(1, 9));
      s << w;
    }
    s.end(true, inlined ? "# inline" : "");
  };
  auto ready = [&](const std::vector<std::uint64_t>& g) {
    for (auto x : g)
      if (x >= nv) return false;
    return true;
  };
  for (const auto& p : m.v) {
    extras();
    s << std::string{"v"} << p[0] << p[1] << p[2];
    if (coloured) s << rng.unit() << rng.unit() << rng.unit();
    s.end(true, inlined ? "# inline" : "");
    ++nv;
    while (mixed && next < m.polygons.size() && ready(m.polygons[next])) face(m.polygons[next++]);
  }
  while (next < m.polygons.size()) face(m.polygons[next++]);
  extras();
  return s.finish();
}

inline std::string spell_off(Rng& rng, const Text_mesh& m, bool plain) {
  Speller s{rng, plain};
  s.noise();
  bool st = !plain && rng.chance(0.15), col = !plain && rng.chance(0.2), nrm = !plain && rng.chance(0.15);
  s << std::string{st ? "ST" : ""} + (col ? "C" : "") + (nrm ? "N" : "") + "OFF";
  s.end(true, !plain && rng.chance(0.1) ? "# header" : "");
  s.noise();
  s << static_cast<std::uint64_t>(m.v.size()) << static_cast<std::uint64_t>(m.polygons.size());
  if (plain || rng.chance(0.7)) s << static_cast<std::uint64_t>(rng.below(100));
  s.end();
  for (const auto& p : m.v) {
    s.noise();
    s << p[0] << p[1] << p[2];
    if (nrm) s << 0.0 << 0.0 << 1.0;
    if (col) s << std::string{"255"} << std::string{"0"} << std::string{"0"} << std::string{"255"};
    if (st) s << 0.5 << 0.5;
    s.end();
  }
  for (const auto& g : m.polygons) {
    s.noise();
    s << static_cast<std::uint64_t>(g.size());
    for (auto x : g) s << x;
    if (!plain && rng.chance(0.2)) s << std::string{"0.5"} << std::string{"0.5"} << std::string{"1"};
    s.end();
  }
  s.noise();
  return s.finish();
}

inline std::string spell_ply(Rng& rng, const Text_mesh& m, bool plain) {
  Speller s{rng, plain};
  auto line = [&](const std::string& t) {
    s << t;
    s.end(false);
    while (!plain && rng.chance(0.1)) {
      const char* c[] = {"comment made by hand", "comment", "comment element vertex 3"};
      s << std::string{c[rng.below(3)]};
      s.end(false);
    }
  };
  struct Prop {
    bool list;
    std::string name;
    int role;  // 0, 1, 2: coordinate; 3: vertex list; -1: other
  };
  struct Elem {
    int what;  // 0: vertex, 1: face, 2: other
    std::string name;
    std::size_t n;
    std::vector<Prop> p;
  };
  std::vector<Elem> el{{0, "vertex", m.v.size(), {{false, "x", 0}, {false, "y", 1}, {false, "z", 2}}},
                       {1, "face", m.polygons.size(), {{true, plain || rng.chance(0.5) ? "vertex_index" : "vertex_indices", 3}}}};
  if (!plain) {
    for (auto& e : el) {
      int k = rng.chance(0.4) ? rng.range(1, 4) : 0;
      for (int i = 0; i < k; ++i) e.p.push_back({rng.chance(0.3), fmt("extra%d", i), -1});
      if (rng.chance(0.4)) rng.shuffle(e.p);
    }
    int k = rng.chance(0.3) ? rng.range(1, 3) : 0;
    for (int i = 0; i < k; ++i) {
      Elem e{2, fmt("other%d", i), static_cast<std::size_t>(rng.range(0, 3)), {}};
      for (int j = rng.range(1, 3); j > 0; --j) e.p.push_back({rng.chance(0.4), fmt("p%d", j), -1});
      if (rng.chance(0.3)) e.p.push_back({false, "x", -1});
      el.push_back(e);
    }
    if (rng.chance(0.3)) rng.shuffle(el);
  }
  const char* types[] = {"float", "double", "float32", "float64"};
  const char* ints[] = {"int", "uint", "int32", "uint32", "short"};
  line("ply");
  line("format ascii 1.0");
  for (const auto& e : el) {
    line("element " + e.name + " " + std::to_string(e.n));
    for (const auto& p : e.p)
      line(p.list ? std::string{"property list "} + (rng.chance(0.5) ? "uchar " : "uint8 ") + ints[rng.below(5)] + " " + p.name
                  : std::string{"property "} + types[rng.below(4)] + " " + p.name);
  }
  line("end_header");
  if (!plain && s.out.find("end_header") + 12 < s.out.size()) {  // no comments after the header
    s.out.resize(s.out.find("end_header") + 10);
    s.break_line();
  }
  for (const auto& e : el)
    for (std::size_t i = 0; i < e.n; ++i) {
      for (const auto& p : e.p) {
        if (p.role >= 0 && p.role < 3) {
          s << m.v[i][static_cast<std::size_t>(p.role)];
        } else if (p.role == 3) {
          s << static_cast<std::uint64_t>(m.polygons[i].size());
          for (auto x : m.polygons[i]) s << x;
        } else if (p.list) {
          int n = rng.range(0, 4);
          s << static_cast<std::uint64_t>(n);
          for (int j = 0; j < n; ++j) s << s.word();
        } else {
          s << s.word();
        }
      }
      s.end();
    }
  return s.finish();
}

inline std::string spell(Rng& rng, int format, const Text_mesh& m, bool plain) {
  return format == 0 ? spell_obj(rng, m, plain) : format == 1 ? spell_off(rng, m, plain) : spell_ply(rng, m, plain);
}
