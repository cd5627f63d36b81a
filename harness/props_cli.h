// C19 and the part of C10 that concerns the program: the real executable, run on real files.
#pragma once

#include "props_hostile.h"
#include "props_defects.h"
#include "region_eq.h"
#include "warn_gen.h"

#include <poll.h>

namespace cli {

struct Run {
  int status{};
  std::string out, err;
};

// A directory for the files of one case.
struct Scratch_dir {
  std::string path{scratch("cli")};
  Scratch_dir() { std::filesystem::create_directory(path); }
  ~Scratch_dir() { std::filesystem::remove_all(path); }
  std::string operator()(const std::string& name) const { return path + "/" + name; }
};

// Runs the program in `dir`. Its outputs go to pipes, which no limit on file sizes affects.
inline Run run(const std::string& dir, const std::vector<std::string>& args, const char* out_to = nullptr) {
  // The build of the program to run.
  const char* which = std::getenv("VERIF_PROGRAM");
  std::vector<std::string> all{required_env(which ? which : "VERIF_BIN_KIGUMI")};
  all.insert(all.end(), args.begin(), args.end());
  std::vector<char*> a;
  for (const auto& s : all) a.push_back(const_cast<char*>(s.c_str()));
  a.push_back(nullptr);
  int po[2], pe[2];
  if (pipe2(po, O_CLOEXEC) != 0 || pipe2(pe, O_CLOEXEC) != 0) throw Generator_error("pipe");
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addchdir_np(&fa, dir.c_str());
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  if (out_to) {
    posix_spawn_file_actions_addopen(&fa, 1, out_to, O_WRONLY, 0);
  } else {
    posix_spawn_file_actions_adddup2(&fa, po[1], 1);
  }
  posix_spawn_file_actions_adddup2(&fa, pe[1], 2);
  pid_t pid{};
  int e = posix_spawn(&pid, a[0], &fa, nullptr, a.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  close(po[1]);
  close(pe[1]);
  if (e != 0) throw Generator_error("cannot start the program");
  Run r;
  pollfd fds[2]{{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
  while (fds[0].fd >= 0 || fds[1].fd >= 0) {
    if (poll(fds, 2, -1) < 0 && errno != EINTR) throw Generator_error("poll");
    for (int i = 0; i < 2; ++i) {
      if (fds[i].fd < 0 || !fds[i].revents) continue;
      char buf[4096];
      auto n = read(fds[i].fd, buf, sizeof buf);
      if (n > 0) {
        (i == 0 ? r.out : r.err).append(buf, static_cast<std::size_t>(n));
      } else {
        close(fds[i].fd);
        fds[i].fd = -1;
      }
    }
  }
  int st{};
  while (waitpid(pid, &st, 0) < 0) {
    if (errno != EINTR) throw Generator_error("waitpid");
  }
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  rep().count("runs");
  if (r.err.find("Sanitizer") != std::string::npos || r.err.find(": runtime error: ") != std::string::npos) {
    auto i = r.err.find("SUMMARY");
    rep().violation("sanitizer", (i == std::string::npos ? "" : r.err.substr(i, 300) + " ") + r.err.substr(0, 2500));
  }
  return r;
}

inline std::string command_text(const std::vector<std::string>& args) {
  std::string s = "kigumi";
  for (auto& a : args) s += " " + (a.empty() ? "''" : a);
  return s;
}

inline std::string run_text(const Run& r) { return fmt(" (exit status %d, messages: '", r.status) + shown(r.err, 300) + "')"; }

// A failure that is told: a status, not a signal, and a message.
inline std::string not_reported(const Run& r) {
  if (r.status == 0) return "it exits with 0";
  if (r.status >= 1000) return fmt("it is ended by signal %d", r.status - 1000);
  if (r.err.empty()) return "it says nothing";
  return {};
}

// ---------------------------------------------------------------------------------------------
// Files

inline Plain plain_of_mesh(const Mesh& m) {
  Plain p;
  for (const auto& x : m.v) p.v.push_back({to_q(x.x()), to_q(x.y()), to_q(x.z())});
  for (const auto& t : m.f) p.f.push_back({t[0], t[1], t[2]});
  return p;
}

inline Mesh mesh_of_plain(const Plain& p) {
  Mesh m;
  auto ft = [](const Q& q) { return is_double(q) ? FT(q.get_d()) : FT(to_exact(q)); };
  for (const auto& x : p.v) m.v.push_back(P{ft(x[0]), ft(x[1]), ft(x[2])});
  for (const auto& t : p.f) m.f.push_back({t[0], t[1], t[2]});
  return m;
}

inline bool all_doubles(const Plain& p) {
  for (const auto& x : p.v)
    for (const auto& y : x)
      if (!is_double(y)) return false;
  return true;
}

inline Text_mesh text_of(const Plain& p) {
  Text_mesh t;
  t.verdict = Text_mesh::VALID;
  for (const auto& x : p.v) t.v.push_back({x[0].get_d(), x[1].get_d(), x[2].get_d()});
  for (const auto& f : p.f) t.polygons.push_back({f[0], f[1], f[2]});
  return t;
}

inline std::string kigumi_bytes(const Plain& p, Rng& rng) {
  return encode_kigumi<kigumi::Null_data>(p, std::vector<kigumi::Null_data>(p.f.size()), rng).bytes;
}

inline int random_format(Rng& rng) { return static_cast<int>(rng.below(4)); }

// Something to put into file names that must not matter.
inline std::string odd_name(Rng& rng) {
  if (rng.chance(0.8)) return {};
  const char* x[] = {" 1", ".obj", ".kigumi", "=", ".", "\xc3\xa4", "-", "--int", ":", ":empty:", "'", "*", "_a_rather_long_name_for_a_file_of_this_kind"};
  return x[rng.below(13)];
}

// Writes the mesh as a file of a random format that can hold it; returns its name.
inline std::string put_mesh(const Scratch_dir& dir, const std::string& stem, const Plain& p, Rng& rng, int format = -1) {
  if (format < 0) format = rng.chance(0.4) ? 3 : random_format(rng);
  if (format < 3 && !all_doubles(p)) format = 3;
  auto name = stem + odd_name(rng) + "." + format_name(format);
  spill(dir(name), format == 3 ? kigumi_bytes(p, rng) : spell(rng, format, text_of(p), rng.chance(0.5)));
  rep().count(std::string{"inputs."} + format_name(format));
  return name;
}

inline std::string put_solid(const Scratch_dir& dir, const std::string& stem, const Solid& s, Rng& rng) {
  if (s.kind == Solid::EMPTY || s.kind == Solid::FULL) {
    rep().count("inputs.special");
    if (rng.chance(0.7)) return s.kind == Solid::EMPTY ? ":empty:" : ":full:";
    Plain p;
    p.kind = s.kind == Solid::EMPTY ? 0 : 1;
    return put_mesh(dir, stem, p, rng, 3);
  }
  return put_mesh(dir, stem, plain_of_mesh(s.m), rng);
}

// ---------------------------------------------------------------------------------------------
// boolean

struct Order {
  Op op;
  const char* option;
};
inline const Order orders[] = {{Op::INTERSECTION, "--int"}, {Op::UNION, "--uni"}, {Op::DIFFERENCE, "--dif"}, {Op::SYMMETRIC_DIFFERENCE, "--sym"}};

inline std::string warning_text(int w) {
  std::string s;
  if (w & 1) s += "warning: the first mesh partially intersects with the second mesh\n";
  if (w & 2) s += "warning: the second mesh partially intersects with the first mesh\n";
  return s;
}

inline bool far_from(const Solid& s, const P& p, double tolerance) {
  for (const auto& t : s.m.f) {
    if (CGAL::do_intersect(CGAL::Bbox_3(p.bbox().xmin() - tolerance, p.bbox().ymin() - tolerance, p.bbox().zmin() - tolerance, p.bbox().xmax() + tolerance,
                                        p.bbox().ymax() + tolerance, p.bbox().zmax() + tolerance),
                           s.m.v[t[0]].bbox() + s.m.v[t[1]].bbox() + s.m.v[t[2]].bbox()) &&
        CGAL::squared_distance(p, K::Triangle_3{s.m.v[t[0]], s.m.v[t[1]], s.m.v[t[2]]}) <= FT(tolerance) * FT(tolerance))
      return false;
  }
  return true;
}

// Judges one output file against the operator applied to the operands.
inline std::string judge_output(const std::string& path, int format, Op op, const Pair& p, const Membership& ms, Rng& rng) {
  if (!std::filesystem::exists(path)) return "there is no output file";
  auto bytes = slurp(path);
  Result r{op, true, Region::empty(), {}, true};
  long checked = 0;
  if (format == 3) {
    auto d = decode_kigumi<kigumi::Null_data>(bytes);
    if (!d.valid || d.used != bytes.size()) return "the output is not a region file: " + d.why;
    r.m = mesh_of_plain(d.m);
    auto s = d.m.kind == 0 ? Solid::special(false) : d.m.kind == 1 ? Solid::special(true) : p.clipped ? Solid::open(r.m) : Solid::closed(r.m);
    auto e = check_membership(r, s, ms, rng, checked);
    if (e.empty()) e = check_faces(r, p, s, rng, 5, checked);
    rep().count("memberships", checked);
    rep().count(d.m.kind == 0 ? "outputs.empty" : d.m.kind == 1 ? "outputs.full" : "outputs.kigumi");
    return e;
  }
  auto t = parse_text(format, bytes);
  if (t.verdict != Text_mesh::VALID) return "the output is not a mesh: " + t.why;
  rep().count(std::string{"outputs."} + format_name(format));
  if (p.clipped) return {};
  // The coordinates may be rounded: the surface may have moved by the distance of two doubles, and points
  // further away from it than that must be on the same side of it as before.
  double size = 0;
  for (auto& x : t.v)
    for (auto y : x) size = std::max(size, std::abs(y));
  for (const auto* s : {&p.a, &p.b})
    if (!s->m.f.empty())
      for (int i = 0; i < 3; ++i) size = std::max({size, std::abs(s->boxes.all.min(i)), std::abs(s->boxes.all.max(i))});
  auto tolerance = size * 0x1p-48 + 1e-300;
  Solid s;
  if (!t.polygons.empty()) {
    s.kind = Solid::CLOSED;
    s.m = mesh_of_plain(t.plain());
    // Faces that rounding has flattened enclose nothing.
    std::erase_if(s.m.f, [&](auto& f) { return CGAL::collinear(s.m.v[f[0]], s.m.v[f[1]], s.m.v[f[2]]); });
    s.boxes = Boxes{s.m};
    if (s.m.f.empty()) s.kind = Solid::EMPTY;
  }
  double reach = size * 4 + 1;
  P outside{FT(reach), FT(reach) * FT(0.7), FT(reach) * FT(0.9)};
  auto oa = p.a.locate(outside, rng);
  auto ob = p.b.locate(outside, rng);
  require_bounding(p, oa && ob);
  bool outer = apply_op(op, *oa == Loc::IN, *ob == Loc::IN);
  if (s.kind == Solid::CLOSED) {
    s.outer = outer;
  } else {
    s = Solid::special(outer);  // the format holds the boundary only
  }
  for (std::size_t i = 0; i < ms.pts.size(); ++i) {
    auto [la, lb] = ms.truth[i];
    const auto& q = ms.pts[i];
    if (la == Loc::ON || lb == Loc::ON || !far_from(p.a, q, tolerance) || !far_from(p.b, q, tolerance)) continue;
    bool want = apply_op(op, la == Loc::IN, lb == Loc::IN);
    auto got = s.locate(q, rng);
    ++checked;
    if (!got || *got == Loc::ON || (*got == Loc::IN) != want)
      return fmt("%s is %s the first, %s the second, and %s the output", point_text(q).c_str(), loc_name(la), loc_name(lb), got ? loc_name(*got) : "at no definite side of");
  }
  rep().count("memberships_in_text", checked);
  return {};
}

inline Pair cli_pair(Rng& rng) {
  Gen_options o;
  o.large = 0.003;
  auto p = gen_pair(rng, o);
  if (rng.chance(0.2)) {
    auto& s = rng.chance(0.5) ? p.a : p.b;
    s = Solid::special(rng.chance(0.5));
    if (rng.chance(0.1)) (rng.chance(0.5) ? p.a : p.b) = Solid::special(rng.chance(0.5));
    p.cls += "+special";
  } else if (rng.chance(0.05)) {
    p.b = p.a;
    p.cls += "+same";
  }
  // All outputs are one file format only if the coordinates are doubles.
  p.a.m.id.clear();
  p.b.m.id.clear();
  return p;
}

inline Region region_of_solid(const Solid& s) { return s.kind == Solid::EMPTY ? Region::empty() : s.kind == Solid::FULL ? Region::full() : to_region(s.m); }

struct Arguments {
  std::vector<std::string> args;
  // The two required arguments, by position or by name, and options, in any order.
  static std::vector<std::string> make(Rng& rng, const std::string& command, const std::vector<std::pair<std::string, std::string>>& required, std::vector<std::pair<std::string, std::string>> options) {
    std::vector<std::vector<std::string>> groups;
    auto named = [&](const std::string& name, const std::string& value) -> std::vector<std::string> {
      if (rng.chance(0.3)) return {name + "=" + value};
      return {name, value};
    };
    // Positional arguments fill the required ones in order: name only a tail of them.
    auto n = rng.chance(0.7) ? required.size() : rng.below(required.size() + 1);
    for (auto& [name, value] : options) groups.push_back(named(name, value));
    for (std::size_t i = n; i < required.size(); ++i) groups.push_back(named("--" + required[i].first, required[i].second));
    rng.shuffle(groups);
    std::size_t at = 0;
    for (std::size_t i = 0; i < n; ++i) {
      at += rng.below(groups.size() - at + 1);
      groups.insert(groups.begin() + static_cast<long>(at), std::vector<std::string>{required[i].second});
      ++at;
    }
    std::vector<std::string> r{command};
    for (auto& g : groups) r.insert(r.end(), g.begin(), g.end());
    return r;
  }
};

inline void boolean_case(Case_ctx& c) {
  Rng& rng = c.rng;
  auto p = cli_pair(rng);
  c.sig = mix64(mesh_sig(p.a.m), mesh_sig(p.b.m));
  Scratch_dir dir;
  auto fa = put_solid(dir, "a", p.a, rng);
  auto fb = put_solid(dir, "b", p.b, rng);
  struct Wanted {
    Op op;
    std::string file;
    int format;
  };
  std::vector<Wanted> wanted;
  std::vector<std::pair<std::string, std::string>> options;
  for (auto& o : orders)
    if (rng.chance(0.6)) {
      int f = rng.chance(0.5) ? 3 : random_format(rng);
      auto name = std::string{o.option + 2} + odd_name(rng) + "." + format_name(f);
      // An output may replace an input, which has been read by then.
      if (wanted.empty() && rng.chance(0.1) && fa[0] != ':' && fa.ends_with(format_name(f))) name = fa;
      options.emplace_back(o.option, name);
      wanted.push_back({o.op, name, f});
      if (name != fa && rng.chance(0.2)) spill(dir(name), std::string(3000, 'x'));
    }
  auto args = Arguments::make(rng, "boolean", {{"first", fa}, {"second", fb}}, options);
  int warnings = 0;
  {
    Builder b{region_of_solid(p.a), region_of_solid(p.b)};
    warnings = static_cast<int>(b.warnings());
  }
  auto text = command_text(args) + ": ";
  if (c.idx % 37 == 0) rep().sample(text + pair_text(p));
  auto complain = [&](const char* key, const std::string& e) { rep().violation(key, text + e + ": " + pair_text(p)); };
  auto r = run(dir.path, args);
  if (r.status != 0) return complain("fails", "it fails" + run_text(r));
  if (r.err != warning_text(warnings)) return complain("messages", "other messages are expected" + run_text(r));
  for (auto& o : orders) {
    bool any = false;
    for (auto& w : wanted) any = any || w.op == o.op;
    for (int f = 0; f < 4 && !any; ++f)
      if (std::filesystem::exists(dir(std::string{o.option + 2} + "." + format_name(f)))) return complain("unwanted", "an output is written that was not asked for");
  }
  Membership ms{p, rng, {}, {}};
  for (int i = 0; i < 12; ++i) ms.add(random_point_in(p, rng));
  for (int i = 0; i < 8; ++i) {
    const auto& s = i % 2 == 0 ? p.a : p.b;
    if (!s.m.f.empty()) ms.add(near_face(s.m, rng.below(s.m.f.size()), rng, rng.chance(0.5) ? 1e-5 : -1e-5));
  }
  for (auto& w : wanted) {
    auto e = judge_output(dir(w.file), w.format, w.op, p, ms, rng);
    if (!e.empty()) return complain("output", w.file + ": " + e);
  }
  rep().count("boolean");
  c.nontrivial = true;
}

// Open meshes of which some only partly cut the other: warnings name the right meshes.
inline void warning_case(Case_ctx& c) {
  Rng& rng = c.rng;
  Mesh a;
  Mesh b;
  if (rng.chance(0.5)) {
    auto p = inconsistent_pair(rng);
    a = std::move(p.a);
    b = std::move(p.b);
    // The files hold doubles.
    for (auto* m : {&a, &b})
      for (auto& x : m->v) x = P{FT(CGAL::to_double(x.x())), FT(CGAL::to_double(x.y())), FT(CGAL::to_double(x.z()))};
  } else {
    Grid g;
    for (auto& x : g.c)
      for (int i = 0; i <= 2; ++i) x.push_back(FT(i));
    a = voxel_mesh(g, Cells(8, 1), rng, 2);
    auto in = [&] { return FT(rng.range(1, 63)) / FT(32); };
    auto out = [&] { return FT(rng.range(65, 200)) / FT(32); };
    b.v = {P{in(), in(), rng.chance(0.5) ? in() : out()}, P{out(), rng.chance(0.5) ? out() : in(), in()}, P{in(), out(), in()}};
    b.add(0, 1, 2);
    if (rng.chance(0.5)) std::swap(a, b);
  }
  int warnings = static_cast<int>(Builder{to_region(a), to_region(b)}.warnings());
  c.sig = mix64(mesh_sig(a), mesh_sig(b));
  Scratch_dir dir;
  auto fa = put_mesh(dir, "a", plain_of_mesh(a), rng);
  auto fb = put_mesh(dir, "b", plain_of_mesh(b), rng);
  auto args = Arguments::make(rng, "boolean", {{"first", fa}, {"second", fb}}, {});
  auto r = run(dir.path, args);
  if (r.status != 0 || r.err != warning_text(warnings))
    return rep().violation("warnings", fmt("warnings %d: ", warnings) + command_text(args) + run_text(r) + " A{" + mesh_text(a) + "} B{" + mesh_text(b) + "}");
  rep().count(fmt("warnings.%d", warnings));
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------
// convert

inline void convert_case(Case_ctx& c) {
  Rng& rng = c.rng;
  Scratch_dir dir;
  Plain m;
  std::string in;
  if (rng.chance(0.5)) {
    Soup_options o;
    o.moderate = true;
    o.min_faces = 1;
    m = plain_of<kigumi::Null_data>(random_soup<kigumi::Null_data>(rng, o));
    if (rng.chance(0.1)) {
      m = {};
      m.kind = rng.range(0, 1);
    }
    m.d.clear();
    in = put_mesh(dir, "in", m, rng, m.kind < 2 ? 3 : -1);
  } else {
    Text_mesh t;
    do t = random_polygons(rng, 14, 14);
    while (t.polygons.empty());
    int f = static_cast<int>(rng.below(3));
    in = std::string{"in."} + format_name(f);
    spill(dir(in), spell(rng, f, t, rng.chance(0.3)));
    rep().count(std::string{"inputs."} + format_name(f));
    m = t.plain();
  }
  int f = random_format(rng);
  auto out = std::string{"out"} + odd_name(rng) + "." + format_name(f);
  if (rng.chance(0.05)) {
    for (int k = 0; k < 4; ++k)
      if (in.ends_with(format_name(k))) f = k;
    out = in;
  } else if (rng.chance(0.2)) {
    spill(dir(out), std::string(3000, 'x'));
  }
  auto args = Arguments::make(rng, "convert", {{"in", in}, {"out", out}}, {});
  auto source = slurp(dir(in));
  auto complain = [&](const char* key, const std::string& e) { rep().violation(key, command_text(args) + ": " + e + ": " + plain_text(m)); };
  auto r = run(dir.path, args);
  c.sig = hash_str(source);
  if (r.status != 0) return complain("fails", "it fails" + run_text(r));
  if (!r.err.empty()) return complain("messages", "it gives a message" + run_text(r));
  if (in != out && slurp(dir(in)) != source) return complain("input", "the input file changed");
  auto bytes = slurp(dir(out));
  rep().count(std::string{"outputs."} + format_name(f));
  if (f == 3) {
    auto d = decode_kigumi<kigumi::Null_data>(bytes);
    if (!d.valid || d.used != bytes.size()) return complain("output", "the output is not a region file: " + d.why);
    d.m.d.clear();
    if (auto e = difference(m, d.m); !e.empty()) return complain("output", "the output differs: " + e);
  } else {
    auto t = parse_text(f, bytes);
    if (t.verdict != Text_mesh::VALID) return complain("output", "the output is not a mesh: " + t.why);
    auto got = t.plain();
    if (got.v.size() != m.v.size() || got.f != m.f) return complain("output", "the output has other faces");
    for (std::size_t i = 0; i < t.v.size(); ++i)
      for (int k = 0; k < 3; ++k)
        if (!brackets(t.v[i][k], m.v[i][k])) return complain("output", fmt("%.17g is written for ", t.v[i][k]) + m.v[i][k].get_str());
  }
  rep().count("convert");
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------
// defects

inline void defects_case(Case_ctx& c) {
  Rng& rng = c.rng;
  std::string cls;
  Mesh m;
  do m = defects::random_mesh(rng, cls);
  while (m.f.empty());
  m.id.clear();
  c.sig = mesh_sig(m);
  Scratch_dir dir;
  auto in = put_mesh(dir, "in", plain_of_mesh(m), rng);
  auto args = Arguments::make(rng, "defects", {{"in", in}}, {});
  auto complain = [&](const char* key, const std::string& e) { rep().violation(key, command_text(args) + ": " + e + ": " + cls + " " + mesh_text(m, 60)); };
  auto r = run(dir.path, args);
  if (r.status != 0) return complain("fails", "it fails" + run_text(r));
  if (!r.err.empty()) return complain("messages", "it gives a message" + run_text(r));
  auto t = find_defects_by_definition(m);
  std::size_t overlapping = defects::Finder{to_soup(m)}.overlapping_faces().size();
  if ((overlapping == 0) != t.overlaps.empty()) return complain("overlapping", "overlapping faces are missed");
  std::string want;
  auto line = [&](std::size_t n, const char* what) {
    if (n > 0) want += std::to_string(n) + " " + what + "\n";
  };
  line(t.isolated.size(), "isolated vertices");
  line(t.bad_vertices.size(), "non-manifold vertices");
  line(t.boundary.size(), "boundary edges");
  line(t.inconsistent.size(), "inconsistent edges");
  line(t.non_manifold.size(), "non-manifold edges");
  line(t.trivial.size(), "trivial degenerate faces");
  line(t.flat.size(), "non-trivial degenerate faces");
  line(overlapping, "overlapping faces");
  if (c.idx % 37 == 0) rep().sample(command_text(args) + " prints '" + shown(r.out) + "'");
  // The order of the lines is not promised.
  auto got = lines(r.out);
  auto exp = lines(want);
  std::sort(got.begin(), got.end());
  std::sort(exp.begin(), exp.end());
  if (got != exp) return complain("report", "it prints '" + shown(r.out) + "' instead of '" + shown(want) + "'");
  rep().count("defects");
  rep().count("defect_lines", static_cast<long>(got.size()));
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------
// Errors

// Valid command lines of all commands on small valid files, to be spoilt.
struct Good {
  std::vector<std::string> args;     // inputs first: args[1..inputs]
  std::size_t inputs{};
  std::vector<std::size_t> outputs;  // positions in args
};

inline Plain small_solid(Rng& rng) {
  auto m = random_small_solid(rng);
  Plain p = plain_of_mesh(m);
  return p;
}

inline Good good_command(const Scratch_dir& dir, Rng& rng, int which) {
  Good g;
  auto in = [&](const char* stem) { return put_mesh(dir, stem, small_solid(rng), rng); };
  auto out = [&](const char* stem) { return std::string{stem} + "." + format_name(random_format(rng)); };
  if (which == 0) {
    g.args = {"boolean", in("a"), in("b")};
    g.inputs = 2;
    auto n = rng.range(1, 4);
    std::vector<int> k{0, 1, 2, 3};
    rng.shuffle(k);
    for (int i = 0; i < n; ++i) {
      g.args.push_back(orders[k[i]].option);
      g.outputs.push_back(g.args.size());
      g.args.push_back(out(orders[k[i]].option + 2));
    }
  } else if (which == 1) {
    g.args = {"convert", in("a"), out("out")};
    g.inputs = 1;
    g.outputs = {2};
  } else {
    g.args = {"defects", in("a")};
    g.inputs = 1;
  }
  return g;
}

inline std::string damaged_file(const std::string& bytes, int format, Rng& rng) {
  for (int tries = 0; tries < 200; ++tries) {
    auto b = bytes;
    std::string how;
    if (rng.chance(0.6)) {
      b.resize(rng.below(b.size()));
    } else if (format == 3) {
      b = damage_bytes(rng, b, how);
    } else {
      b = damage_text(rng, b, how);
    }
    // Only files that no reader may accept as a region.
    if (format == 3) {
      auto d = decode_kigumi<kigumi::Null_data>(b);
      if (!d.complete || !d.valid) return b;
    } else {
      auto t = parse_text(format, b);
      if (t.verdict == Text_mesh::INCOMPLETE || (t.verdict == Text_mesh::VALID && t.polygons.empty())) return b;
    }
  }
  return {};
}

inline int format_of(const std::string& name) {
  for (int k = 0; k < 4; ++k)
    if (name.ends_with(std::string{"."} + format_name(k))) return k;
  throw Generator_error("format of " + name);
}

inline void usage_case(Case_ctx& c) {
  Rng& rng = c.rng;
  Scratch_dir dir;
  auto g = good_command(dir, rng, static_cast<int>(rng.below(3)));
  auto& a = g.args;
  std::string how;
  switch (rng.below(9)) {
    case 0:
      how = "no arguments";
      a.clear();
      break;
    case 1:
      how = "unknown command";
      a[0] = std::vector<std::string>{"bool", "Boolean", "", "help", "--help", "convert ", "defect", "union", "-"}[rng.below(9)];
      break;
    case 2:
      how = "unknown option";
      a.insert(a.begin() + 1 + static_cast<long>(rng.below(a.size())), std::vector<std::string>{"--unknown", "--intersection=x.obj", "-z", "--out2=x.off", "--xor=x.ply"}[rng.below(5)]);
      break;
    case 3:
      how = "missing argument";
      a.resize(rng.range(1, static_cast<int>(a[0] == "boolean" ? 2 : a[0] == "convert" ? 2 : 1)));
      break;
    case 4:
      how = "too many arguments";
      a.push_back(a[1]);
      break;
    case 5:
      how = "option without a value";
      if (a[0] == "boolean") {
        a.resize(3);
        a.push_back(orders[rng.below(4)].option);
      } else {
        a = {a[0], "--in"};
      }
      break;
    case 6:
      how = "option given twice";
      if (a[0] == "boolean") {
        a.push_back(a[3]);
        a.push_back("second.off");
      } else {
        a.push_back("--in");
        a.push_back(a[1]);
      }
      break;
    case 7:
      how = "only a command";
      a.resize(1);
      break;
    default:
      how = "no inputs";
      if (a[0] == "boolean") {
        a.erase(a.begin() + 1, a.begin() + 3);
      } else {
        a.resize(1);
      }
  }
  auto r = run(dir.path, a);
  c.sig = hash_str(command_text(a));
  if (auto e = not_reported(r); !e.empty()) return rep().violation("usage", how + ": " + command_text(a) + ": " + e + run_text(r));
  rep().count("wrong_usage");
  c.nontrivial = true;
}

// C10: inputs that cannot be read, outputs that cannot be written.
inline void failing_files(Case_ctx& c) {
  Rng& rng = c.rng;
  for (int i = 0; i < 6; ++i) {
    Scratch_dir dir;
    auto g = good_command(dir, rng, static_cast<int>(rng.below(3)));
    std::string how, counter = "input_faults";
    bool ok = true;
    std::optional<std::size_t> limit;
    const char* out_to = nullptr;
    std::size_t full_size = 0;
    if (g.outputs.empty() ? rng.chance(0.7) : rng.chance(0.4)) {
      auto k = 1 + rng.below(g.inputs);
      auto name = g.args[k];
      int f = format_of(name);
      switch (rng.below(6)) {
        case 0:
          how = "missing input";
          std::filesystem::remove(dir(name));
          break;
        case 1:
          how = "the input is a directory";
          std::filesystem::remove(dir(name));
          std::filesystem::create_directory(dir(name));
          break;
        case 2:
          how = "input of an unknown format";
          std::filesystem::rename(dir(name), dir("a.stl"));
          g.args[k] = "a.stl";
          break;
        case 3:
          how = "empty input";
          spill(dir(name), "");
          break;
        default: {
          how = "damaged input";
          auto b = damaged_file(slurp(dir(name)), f, rng);
          spill(dir(name), b);
          how += f == 3 ? " " + hex(b, 300) : " " + shown(b, 600);
        }
      }
    } else if (g.outputs.empty()) {
      // What there is to tell goes to standard output.
      counter = "report_faults";
      how = "standard output is full";
      auto p = small_solid(rng);
      p.f.erase(p.f.begin());
      spill(dir(g.args[1]), format_of(g.args[1]) == 3 ? kigumi_bytes(p, rng) : spell(rng, format_of(g.args[1]), text_of(p), true));
      out_to = "/dev/full";
    } else {
      counter = "output_faults";
      auto k = g.outputs[rng.below(g.outputs.size())];
      auto& name = g.args[k];
      switch (rng.below(6)) {
        case 0:
          how = "output in no directory";
          name = "none/" + name;
          break;
        case 1:
          how = "the output is a directory";
          std::filesystem::create_directory(dir(name));
          break;
        case 2:
          how = "output of an unknown format";
          name = "out.stl";
          break;
        case 3: {
          how = "the output device is full";
          auto first = run(dir.path, g.args);
          if (first.status != 0) return rep().violation("fails", command_text(g.args) + ": it fails" + run_text(first));
          if (std::filesystem::file_size(dir(name)) == 0) {  // nothing is written
            ok = false;
            break;
          }
          std::filesystem::remove(dir(name));
          if (symlink("/dev/full", dir(name).c_str()) != 0) throw Generator_error("symlink");
          break;
        }
        default: {
          how = "the output is limited";
          auto first = run(dir.path, g.args);
          if (first.status != 0) return rep().violation("fails", command_text(g.args) + ": it fails" + run_text(first));
          for (auto o : g.outputs) full_size = std::max(full_size, static_cast<std::size_t>(std::filesystem::file_size(dir(g.args[o]))));
          // The same result may be written in other words, of slightly different length.
          auto margin = full_size / 8 + 16;
          if (full_size < 2 * margin) {
            ok = false;
            break;
          }
          limit = rng.chance(0.4) ? full_size - margin : static_cast<std::size_t>(rng.below(full_size - margin));
          how += fmt(" to %zu of %zu bytes", *limit, full_size);
        }
      }
    }
    if (!ok) continue;
    Run r;
    {
      std::optional<File_limit> l;
      if (limit) l.emplace(*limit);
      r = run(dir.path, g.args, out_to);
    }
    c.sig = mix64(c.sig, hash_str(how + command_text(g.args)));
    if (auto e = not_reported(r); !e.empty()) return rep().violation(counter, how + ": " + command_text(g.args) + ": " + e + run_text(r));
    rep().count("program." + counter);
    if (limit) {
      // With room enough, it succeeds.
      File_limit l{2 * full_size};
      if (auto again = run(dir.path, g.args); again.status != 0) return rep().violation("fails", command_text(g.args) + fmt(": it fails although there is room for %zu bytes", 2 * full_size) + run_text(again));
    }
  }
  c.nontrivial = true;
}

inline void case_cli(Case_ctx& c) {
  double r = c.rng.unit();
  if (r < 0.45) return boolean_case(c);
  if (r < 0.55) return warning_case(c);
  if (r < 0.75) return convert_case(c);
  if (r < 0.9) return defects_case(c);
  return usage_case(c);
}

}  // namespace cli
