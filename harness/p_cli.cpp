// C01..C03 and W04: the command line tool, colour strings and locales.
#include "cli.h"
#include "draw.h"
#include "readers.h"
#include <clocale>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

namespace {
std::string case_dir(Ctx &c) {
  std::string d = std::string(c.scratch()) + "/cli";
  std::string cmd;
  // a fresh directory per case; the engine empties the scratch directory at the end
  static int n;
  d += std::to_string(getpid()) + "_" + std::to_string(n++);
  mkdir(d.c_str(), 0700);
  return d;
}
void wipe(const std::string &d) {
  DIR *p = opendir(d.c_str());
  if (!p) return;
  while (dirent *e = readdir(p)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string q = d + "/" + n;
    struct stat st;
    if (!lstat(q.c_str(), &st) && S_ISDIR(st.st_mode)) wipe(q);
    else unlink(q.c_str());
  }
  closedir(p);
  rmdir(d.c_str());
}
struct Dir {
  std::string d;
  explicit Dir(Ctx &c) : d(case_dir(c)) {}
  ~Dir() { wipe(d); }
};
std::vector<std::string> listing(const std::string &d) {
  std::vector<std::string> v;
  if (DIR *p = opendir(d.c_str())) {
    while (dirent *e = readdir(p)) v.push_back(e->d_name);
    closedir(p);
  }
  std::sort(v.begin(), v.end());
  return v;
}

// ---- pictures as files
Bytes encode(Ctx &c, const Image &im, std::string &suf) {
  std::string h;
  Bytes f;
  switch (c.choose(im.np == 1 ? 3 : 2)) {
    case 0: {
      suf = im.np == 3 ? "ppm" : "pgm";
      if (c.chance(1, 4)) suf = "pnm";
      h = sfmt("P%d\n%d %d\n255\n", im.np == 3 ? 6 : 5, im.w, im.h);
      f.assign(h.begin(), h.end());
      f.insert(f.end(), im.d.begin(), im.d.end());
      return f;
    }
    case 1: {
      suf = im.np == 3 ? "ppm" : "pgm";
      h = sfmt("P%d\n# text\n%d %d\n255\n", im.np == 3 ? 3 : 2, im.w, im.h);
      for (auto v : im.d) h += std::to_string(v) + " ";
      return Bytes(h.begin(), h.end());
    }
    default: {
      suf = "pbm";
      h = sfmt("P1\n%d %d\n", im.w, im.h);
      for (auto v : im.d) h += v < 128 ? "1" : "0";
      return Bytes(h.begin(), h.end());
    }
  }
}

// ---- options
struct Expect {
  FitOpts fo;
  bool has_bg = false;
  RGB bg{};
  unsigned charcode = 0;
  unsigned dpi = 72;
  Expect() {  // the documented defaults
    at_fitting_opts_type *o = fo.o;
    o->color_count = 0, o->corner_always_threshold = 60, o->corner_surround = 4, o->corner_threshold = 100;
    o->error_threshold = 2.0f, o->filter_iterations = 4, o->line_reversion_threshold = .01f, o->line_threshold = 1;
    o->remove_adjacent_corners = false, o->remove_knees = false, o->tangent_surround = 3, o->despeckle_level = 0;
    o->despeckle_tightness = 2.0f, o->noise_removal = .99f, o->centerline = false, o->preserve_width = false, o->width_weight_factor = 6;
    o->charcode = 0;
  }
};
struct Given {
  std::string name, value;
  bool has = false;
};
std::string gen_real(Ctx &c, double lo, double hi) {
  double v = c.real(lo, hi);
  switch (c.weighted({4, 2, 2, 1})) {
    case 0: return sfmt("%.2f", v);
    case 1: return sfmt("%g", v);
    case 2: return sfmt("%.0f", v);
    default: {
      std::string s = sfmt("%.3f", v);
      if (s[0] == '0' && s.size() > 1) s.erase(0, 1);  // .5
      return s;
    }
  }
}
std::string hex6(Ctx &c, RGB k) {
  std::string s = sfmt("%02x%02x%02x", k.r, k.g, k.b);
  int m = c.choose(3);
  for (char &ch : s)
    if (m == 1 || (m == 2 && c.coin())) ch = toupper(ch);
  return s;
}
// one drawn option and its effect
bool draw_option(Ctx &c, Expect &e, const Image &im, Given &g) {
  at_fitting_opts_type *o = e.fo.o;
  static const std::vector<std::string> names = {"background-color", "centerline", "color-count", "corner-always-threshold", "corner-surround", "corner-threshold",
                                                 "despeckle-level", "despeckle-tightness", "dpi", "error-threshold", "filter-iterations", "line-reversion-threshold",
                                                 "line-threshold", "noise-removal", "preserve-width", "remove-adjacent-corners", "remove-knees", "report-progress",
                                                 "tangent-surround", "width-weight-factor", "log", "debug-bitmap", "charcode"};
  g.name = c.pick(names);
  auto real = [&](float &f, double lo, double hi) {
    g.has = true;
    g.value = gen_real(c, lo, hi);
    f = (float)strtod(g.value.c_str(), nullptr);
  };
  auto num = [&](unsigned &u, int lo, int hi) {
    g.has = true;
    u = c.range(lo, hi);
    g.value = std::to_string(u);
  };
  const std::string &n = g.name;
  if (n == "background-color") {
    int k = c.weighted({4, 2, 1});
    RGB bg = k == 0 ? im.get(0, 0) : k == 1 ? RGB{255, 255, 255} : gen_color(c);
    e.has_bg = true;
    e.bg = bg;
    g.has = true;
    g.value = hex6(c, bg);
  } else if (n == "centerline") o->centerline = true;
  else if (n == "color-count") {
    if (!c.chance(1, 4)) return false;  // costly
    num(o->color_count, 1, c.coin() ? 8 : 256);
  } else if (n == "corner-always-threshold") real(o->corner_always_threshold, 0, 180);
  else if (n == "corner-surround") num(o->corner_surround, 1, 10);
  else if (n == "corner-threshold") real(o->corner_threshold, 0, 180);
  else if (n == "despeckle-level") num(o->despeckle_level, 0, 20);
  else if (n == "despeckle-tightness") real(o->despeckle_tightness, 0, 8);
  else if (n == "dpi") num(e.dpi, 1, 1200);
  else if (n == "error-threshold") real(o->error_threshold, 0, 6);
  else if (n == "filter-iterations") num(o->filter_iterations, 0, 12);
  else if (n == "line-reversion-threshold") real(o->line_reversion_threshold, 0, 1);
  else if (n == "line-threshold") real(o->line_threshold, 0, 6);
  else if (n == "noise-removal") real(o->noise_removal, 0, 1);
  else if (n == "preserve-width") o->preserve_width = true;
  else if (n == "remove-adjacent-corners") o->remove_adjacent_corners = true;
  else if (n == "remove-knees") o->remove_knees = true;
  else if (n == "tangent-surround") num(o->tangent_surround, 1, 8);
  else if (n == "width-weight-factor") real(o->width_weight_factor, 0, 10);
  else if (n == "charcode") num(e.charcode, 0, 255);
  return true;
}
// spells an option with a value in one of the accepted ways
void spell(Ctx &c, const Given &g, std::vector<std::string> &args) {
  std::string n = g.name;
  if (c.chance(1, 3)) {
    std::vector<std::string> ok;
    for (size_t k = 1; k < n.size(); k++)
      if (cli_unique(n.substr(0, k))) ok.push_back(n.substr(0, k));
    if (!ok.empty()) n = c.pick(ok);
  }
  n = (c.coin() ? "-" : "--") + n;
  if (!g.has) {
    args.push_back(n);
  } else if (c.coin()) {
    args.push_back(n + "=" + g.value);
  } else {
    args.push_back(n);
    args.push_back(g.value);
  }
}
std::string library(const std::string &infmt, const std::string &path, Expect &e, const std::string &outfmt, const std::string &outname, Msgs &m, size_t *pixels) {
  at_input_opts_type *io = at_input_opts_new();
  if (e.has_bg) {
    e.fo.bg(e.bg);
    at_color_free(io->background_color);
    io->background_color = at_color_new(e.bg.r, e.bg.g, e.bg.b);
  }
  io->charcode = e.fo.o->charcode = e.charcode;
  at_bitmap *b = at_bitmap_read(at_input_get_handler_by_suffix((char *)infmt.c_str()), (char *)path.c_str(), io, msg_cb, &m);
  at_input_opts_free(io);
  *pixels = (size_t)at_bitmap_get_width(b) * at_bitmap_get_height(b);
  std::string out;
  if (!m.fatal && *pixels <= 3000) {
    at_splines_type *s = at_splines_new(b, e.fo.o, msg_cb, &m);
    if (s && !m.fatal) {
      at_output_opts_type *oo = at_output_opts_new();
      oo->dpi = e.dpi;
      out = write_mem(outfmt.c_str(), s, outname.c_str(), oo, &m);
      at_output_opts_free(oo);
    }
    if (s) at_splines_free(s);
  }
  at_bitmap_free(b);
  return out;
}
std::string first_diff(const std::string &a, const std::string &b) {
  size_t k = 0;
  while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
  size_t from = k > 20 ? k - 20 : 0;
  auto cut = [&](const std::string &s) {
    std::string r;
    for (size_t i = from; i < s.size() && i < k + 40; i++) r += isprint((unsigned char)s[i]) ? std::string(1, s[i]) : sfmt("\\x%02x", (uint8_t)s[i]);
    return r;
  };
  return sfmt("lengths %zu and %zu, first difference at byte %zu: \"%s\" and \"%s\"", a.size(), b.size(), k, cut(a).c_str(), cut(b).c_str());
}

void c01(Ctx &c) {
  init_lib();
  setenv("AT_DATE_ZERO", "yes", 1);
  Dir dir(c);
  // the picture
  TraceCase t;
  std::string suf;
  Bytes file;
  std::vector<int> codes;
  if (c.chance(3, 5)) {
    gen_case(c, t, 30, Opt::plain);
    file = encode(c, t.im, suf);
  } else {
    suf = c.pick(kReaders);
    if (suf == "gf") {
      GfCase g = gen_gf(c);
      file = g.file;
      for (auto &k : g.glyph) codes.push_back(k.first);
    } else {
      file = base_file(c, suf);
    }
    t.im = Image(1, 1, 3);
  }
  // its name
  static const std::vector<std::string> stems = {"in", "a b", "x.y", "sub.d/in", "UP", "-dash", "eq=ual", "p%s"};
  std::string stem = c.chance(1, 2) ? "in" : c.pick(stems);
  mkdir((dir.d + "/sub.d").c_str(), 0700);
  bool suffixless = c.chance(1, 8), fmtopt = suffixless || c.chance(1, 6);
  std::string in = suffixless ? "noext" : stem + "." + suf;
  if (in[0] != '-' && c.chance(1, 6)) in = c.coin() ? "./" + in : dir.d + "/" + in;
  std::string path = in[0] == '/' ? in : dir.d + "/" + in;
  put_file(path, std::string(file.begin(), file.end()));
  // the options
  CliOpts o;
  o.cwd = dir.d;
  Expect e;
  std::vector<std::vector<std::string>> groups;
  std::vector<std::string> used;
  int n = c.weighted({1, 2, 3, 3, 2, 2, 1, 1});
  bool progress = false, log = false, dump = false;
  for (int i = 0; i < n; i++) {
    Given g;
    // a repeated option would have to win over the first one; draw each once
    Expect keep;
    if (!draw_option(c, e, t.im, g)) continue;
    (void)keep;
    groups.emplace_back();
    spell(c, g, groups.back());
    if (std::find(used.begin(), used.end(), g.name) != used.end()) c.label("repeated option");
    used.push_back(g.name);
    progress |= g.name == "report-progress";
    log |= g.name == "log";
    dump |= g.name == "debug-bitmap";
  }
  if (!codes.empty()) {
    e.charcode = c.chance(1, 4) ? 0 : c.pick(codes);
    groups.emplace_back();
    spell(c, Given{"charcode", std::to_string(e.charcode), true}, groups.back());
  }
  if (fmtopt) {
    groups.emplace_back();
    spell(c, Given{"input-format", suf, true}, groups.back());
  }
  // the output
  static const std::vector<std::string> weird = {"plain", "out.unknown", "o.u.t"};
  std::string outfmt = c.pick(kWriters), outname, fmt_used;
  int how = c.weighted({4, 3, 2, 2, 1});
  bool to_file = how == 0 || how == 3 || how == 4;
  if (how == 0) outname = "out." + outfmt, fmt_used = outfmt;                 // by suffix
  else if (how == 1) fmt_used = outfmt;                                       // standard output, named format
  else if (how == 2) fmt_used = "eps";                                        // standard output, default format
  else if (how == 3) outname = "out." + c.pick(kWriters), fmt_used = outfmt;  // the named format wins over the suffix
  else outname = c.pick(weird), fmt_used = "eps";
  if (how == 1 || how == 3) {
    groups.emplace_back();
    spell(c, Given{"output-format", outfmt, true}, groups.back());
  }
  if (to_file) {
    if (c.chance(1, 6)) outname = "sub.d/" + outname;
    groups.emplace_back();
    spell(c, Given{"output-file", outname, true}, groups.back());
    if (c.chance(1, 3)) put_file(dir.d + "/" + outname, std::string(c.range(1, 9000), 'Z'));  // must be replaced completely
  }
  // different options may come in any order; repeated ones keep theirs
  bool rep = false;
  for (size_t i = 0; i < used.size(); i++)
    for (size_t j = 0; j < i; j++) rep |= used[i] == used[j];
  bool code_twice = !codes.empty() && std::find(used.begin(), used.end(), "charcode") != used.end();
  if (!rep && !code_twice)
    for (size_t i = groups.size(); i > 1; i--) std::swap(groups[i - 1], groups[c.choose(i)]);
  for (auto &g : groups) o.args.insert(o.args.end(), g.begin(), g.end());
  if (in[0] == '-' || c.chance(1, 8)) o.args.push_back("--");
  o.args.push_back(in);
  c.note(cli_line(o));
  c.note("input " + hex(file, 2000));
  // what the library does
  Msgs m;
  size_t pixels = 0;
  std::string want = library(suf, path, e, fmt_used, outname, m, &pixels);
  if (pixels > 3000) {
    c.label("skipped: more than 3000 pixels");
    return;
  }
  CliRun r = run_cli(c, o);
  REQUIRE(!r.timeout, "hang", "the tool does not end");
  REQUIRE(r.status >= 0 && r.status != 99, "crash", "the tool ended with status %d: %s", r.status, r.err.substr(0, 1500).c_str());
  bool fail = m.fatal;
  if (fail) {
    REQUIRE(r.status != 0, "status", "the library reports \"%s\" but the tool succeeds", m.last.c_str());
    c.label("refused");
  } else {
    REQUIRE(r.status == 0, "status", "the tool ends with status %d: %s", r.status, r.err.substr(0, 600).c_str());
    std::string got = to_file ? file_text(dir.d + "/" + outname) : r.out;
    REQUIRE(got == want, "output", "the tool's %s output differs from the library's: %s", fmt_used.c_str(), first_diff(got, want).c_str());
    // the ILDA writer reports what it wrote when it writes to a file
    if (to_file && fmt_used != "ild") REQUIRE(r.out.empty(), "stdout", "text on standard output while writing to a file: %s", r.out.substr(0, 200).c_str());
    if (!progress && !m.warning && suf != "gf") REQUIRE(r.err.empty(), "stderr", "text on standard error: %s", r.err.substr(0, 300).c_str());
    if (progress) REQUIRE(std::count(r.err.begin(), r.err.end(), '|') == 50, "progress", "the progress bar is not complete: %s", r.err.substr(0, 300).c_str());
    c.label(fmt_used.c_str());
    c.nontrivial(eng::hash_str(cli_line(o), eng::hash_str(std::string(file.begin(), file.end()))));
  }
  REQUIRE(file_text(path) == std::string(file.begin(), file.end()), "input-changed", "the input file was changed");
  c.label(("from " + suf).c_str());
  if (log) c.label("log");
  if (dump) c.label("dump");
}
static eng::Reg reg_c01({"C01", "a generated picture file, a drawn set of options in drawn spellings and order, an output by suffix, by named format or to standard output; the tool's output compared byte for byte with reading, tracing and writing through the library with the documented defaults and the given values; non-trivial: the tool succeeded; distinct by command line and input file", c01, 12000, 200000, 60, {"pictures of more than 3000 pixels are skipped for time", "AT_DATE_ZERO=yes fixes the date written into some formats", "the two undocumented ignored options are not used"}});

// ---- C02
bool prefix_of_some(const std::string &p) {
  for (auto &o : kCliOptions)
    if (std::string(o.name).compare(0, p.size(), p) == 0) return true;
  return false;
}
std::vector<std::string> names_of(const char *kinds) {
  std::vector<std::string> v;
  for (auto &o : kCliOptions)
    if (strchr(kinds, o.kind)) v.push_back(o.name);
  return v;
}
std::string dashes(Ctx &c) { return c.coin() ? "-" : "--"; }
// a few harmless options
void some_valid(Ctx &c, std::vector<std::string> &args) {
  Expect e;
  Image im(1, 1, 3);
  int n = c.weighted({4, 3, 2});
  for (int i = 0; i < n; i++) {
    Given g;
    if (draw_option(c, e, im, g) && g.name != "color-count" && g.name != "charcode") spell(c, g, args);
  }
}
std::string word(Ctx &c) {
  std::string s;
  int n = c.range(1, 10);
  for (int i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz0123456789-_"[c.choose(38)];
  return s;
}
void c02(Ctx &c) {
  init_lib();
  setenv("AT_DATE_ZERO", "yes", 1);
  Dir dir(c);
  TraceCase t;
  gen_case(c, t, 16, Opt::plain);
  std::string suf;
  Bytes file = encode(c, t.im, suf);
  std::string in = "in." + suf, path = dir.d + "/" + in, text(file.begin(), file.end());
  put_file(path, text);
  mkdir((dir.d + "/dir." + suf).c_str(), 0700);
  std::string old(c.range(1, 3000), 'Z');  // an earlier output that must survive
  CliOpts o;
  o.cwd = dir.d;
  std::vector<std::string> pre, post;
  some_valid(c, pre);
  std::vector<std::string> bad;
  std::string out = "out.svg", kind;
  bool give_out = c.chance(2, 3), give_in = true, keeps_output = true;
  switch (c.choose(18)) {
    case 0: {
      kind = "unknown option";
      std::string w = word(c);
      if (w[0] == '-') w = "q" + w;
      if (prefix_of_some(w)) w = "zz" + w;
      bad.push_back(dashes(c) + w + (c.chance(1, 3) ? "=1" : ""));
      break;
    }
    case 1: {
      kind = "ambiguous abbreviation";
      std::vector<std::string> amb;
      for (auto &q : kCliOptions)
        for (size_t k = 1; k < strlen(q.name); k++) {
          std::string p(q.name, k);
          if (!cli_unique(p)) amb.push_back(p);
        }
      bad.push_back(dashes(c) + c.pick(amb));
      break;
    }
    case 2: {
      kind = "missing value";
      bad.push_back("");  // placed last, see below
      break;
    }
    case 3: {
      kind = "value for a flag";
      bad.push_back("--" + c.pick(names_of("f")) + "=1");
      break;
    }
    case 4: {
      kind = "no input";
      give_in = false;
      break;
    }
    case 5: {
      kind = "two inputs";
      post.push_back(c.coin() ? in : "other." + suf);
      break;
    }
    case 6: {
      kind = "empty input name";
      give_in = false;
      post.push_back("");
      break;
    }
    case 7: {
      kind = "missing input";
      give_in = false;
      static const std::vector<std::string> nm = {"nothere", "no/such/dir/x", "x.y", "%s%n"};
      post.push_back(c.pick(nm) + "." + c.pick(kReaders));
      break;
    }
    case 8: {
      kind = "directory as input";
      give_in = false;
      post.push_back("dir." + suf);
      break;
    }
    case 9: {
      kind = "unknown input suffix";
      give_in = false;
      static const std::vector<std::string> nm = {"noext", "in.xyz", "in.", "in.svg", "sub.d/noext", ".", "..", "/"};
      std::string n = c.pick(nm);
      if (n != "." && n != ".." && n != "/") {
        mkdir((dir.d + "/sub.d").c_str(), 0700);
        put_file(dir.d + "/" + n, text);
      }
      post.push_back(n);
      break;
    }
    case 10: {
      kind = "unknown format";
      bool input = c.coin();
      std::string w = word(c);
      if (c.chance(1, 4)) w = "";
      auto &known = input ? kReaders : kWriters;
      if (std::find(known.begin(), known.end(), w) != known.end() || w == "swf" || w == "plot") w += "q";
      spell(c, Given{input ? "input-format" : "output-format", w, true}, bad);
      break;
    }
    case 11: {
      kind = "negative number";
      spell(c, Given{c.pick(names_of("u")), "", true}, bad);
      if (bad[0].find("charcode") != std::string::npos || bad[0].find("-ch") != std::string::npos) bad[0] = "-corner-surround" + std::string(bad.size() == 1 ? "=" : "");
      bad.back() += std::to_string(-(int)c.range(1, 100000));
      break;
    }
    case 12: {
      kind = "bad colour";
      std::string w;
      switch (c.choose(4)) {
        case 0: w = word(c) + "z"; break;
        case 1: w = std::string(c.pick(std::vector<int>{1, 2, 3, 5, 7, 8, 12}), 'F'); break;
        case 2: w = hex6(c, gen_color(c)), w[c.choose(6)] = "gG zZ#-+xX.\xc3"[c.choose(12)]; break;
        default: w = (c.coin() ? "#" : "0x") + hex6(c, gen_color(c));
      }
      spell(c, Given{"background-color", w, true}, bad);
      break;
    }
    case 13: {
      kind = "too many colours";
      spell(c, Given{"color-count", std::to_string(c.pick(std::vector<int>{257, 258, 300, 1000, 65536, 65537, 1000000, 2147483647})), true}, bad);
      break;
    }
    case 14: {
      kind = "output is the input";
      give_out = false;
      keeps_output = false;
      static const std::vector<std::string> pfx = {"", "./", "dir.%/../", "@/"};
      std::string p = c.pick(pfx);
      if (p == "dir.%/../") p = "dir." + suf + "/../";
      if (p == "@/") p = dir.d + "/";
      spell(c, Given{"output-file", p + in, true}, bad);
      if (c.coin()) spell(c, Given{"output-format", c.pick(kWriters), true}, bad);
      break;
    }
    case 15: {
      kind = "output cannot be opened";
      give_out = false;
      spell(c, Given{"output-file", c.coin() ? "no/such/dir/out.svg" : "dir." + suf, true}, bad);
      break;
    }
    case 16: {
      kind = "device full";
      give_out = false;
      spell(c, Given{"output-format", c.pick(kWriters), true}, bad);
      if (c.coin()) spell(c, Given{"output-file", "/dev/full", true}, bad);
      else o.stdout_to = "/dev/full";
      break;
    }
    default: {
      kind = "damaged input";
      std::string s2 = c.pick(kReaders);
      Bytes b = base_file(c, s2);
      int k = c.range(1, 3);
      for (int i = 0; i < k; i++) mutate(c, b, s2);
      if (declared_pixels(s2, b) > 3000) return;
      in = "bad." + s2;
      path = dir.d + "/" + in;
      text.assign(b.begin(), b.end());
      put_file(path, text);
      Msgs m;
      at_bitmap *bm = at_bitmap_read(at_input_get_handler_by_suffix((char *)s2.c_str()), (char *)path.c_str(), nullptr, msg_cb, &m);
      size_t px = (size_t)at_bitmap_get_width(bm) * at_bitmap_get_height(bm);
      at_bitmap_free(bm);
      if (!m.fatal || px) {
        c.label("readable damage");
        return;
      }
    }
  }
  std::string outpath = dir.d + "/" + out;
  if (give_out) {
    spell(c, Given{"output-file", out, true}, pre);
    put_file(outpath, old);
  }
  if (kind == "missing value") {
    o.args = pre;
    o.args.push_back(dashes(c) + c.pick(names_of("urcs")));
  } else {
    bool first = c.coin();
    if (first) o.args = bad;
    o.args.insert(o.args.end(), pre.begin(), pre.end());
    if (!first) o.args.insert(o.args.end(), bad.begin(), bad.end());
    if (give_in) o.args.push_back(in);
    o.args.insert(o.args.end(), post.begin(), post.end());
  }
  c.note(kind + ": " + cli_line(o));
  c.note("input " + hex(Bytes(text.begin(), text.end()), 1500));
  CliRun r = run_cli(c, o);
  REQUIRE(!r.timeout, "hang", "the tool does not end");
  REQUIRE(r.status >= 0 && r.status != 99, "crash", "%s: the tool ended with status %d: %s", kind.c_str(), r.status, r.err.substr(0, 1500).c_str());
  // an empty drawing may be an empty file, which fits on a full device
  bool may_fit = kind == "device full" && r.status == 0;
  if (may_fit) {
    CliOpts q = o;
    q.stdout_to.clear();
    for (auto &a : q.args) {
      size_t at = a.find("/dev/full");
      if (at != std::string::npos) a = a.substr(0, at) + "check.tmp";
    }
    CliRun w = run_cli(c, q);
    may_fit = w.out.empty() && file_text(dir.d + "/check.tmp").empty();
  }
  if (!may_fit) {
    REQUIRE(r.status != 0, "status", "%s: the tool succeeds", kind.c_str());
    REQUIRE(!r.err.empty(), "silent", "%s: no message on standard error", kind.c_str());
  }
  REQUIRE(file_text(path) == text, "input-changed", "%s: the input file was changed", kind.c_str());
  if (give_out && keeps_output) REQUIRE(file_text(outpath) == old, "output-lost", "%s: the existing output file was changed", kind.c_str());
  c.label(kind.c_str());
  c.nontrivial(eng::hash_str(cli_line(o), eng::hash_str(text)));
}
// informational options
void c02_info(Ctx &c) {
  Dir dir(c);
  CliOpts o;
  o.cwd = dir.d;
  some_valid(c, o.args);
  std::string n = c.pick(names_of("i"));
  spell(c, Given{n, "", false}, o.args);
  c.note("information: " + cli_line(o));
  CliRun r = run_cli(c, o);
  REQUIRE(r.status == 0, "status", "the tool ends with status %d: %s", r.status, r.err.substr(0, 1500).c_str());
  std::string all = r.out + r.err;
  REQUIRE(!all.empty(), "silent", "nothing is printed");
  if (n == "help") {
    for (auto &q : kCliOptions)
      if (q.kind != 'x') REQUIRE(all.find(q.name) != std::string::npos, "help", "the help text does not mention %s", q.name);
  }
  if (n == "version") REQUIRE(all.find(at_version(0)) != std::string::npos, "version", "the version is not printed: %s", all.c_str());
  if (n == "list-output-formats")
    for (auto &w : kWriters) REQUIRE(all.find(" " + w + " ") != std::string::npos || all.find("\n" + w + " ") != std::string::npos, "list", "%s is not listed", w.c_str());
  if (n == "list-input-formats")
    for (auto &w : kReaders) REQUIRE(all.find(" " + w + " ") != std::string::npos || all.find("\n" + w + " ") != std::string::npos, "list", "%s is not listed", w.c_str());
  c.label(n.c_str());
  c.nontrivial(eng::hash_str(cli_line(o)));
}
void c02_all(Ctx &c) {
  if (c.chance(1, 15)) c02_info(c);
  else c02(c);
}
static eng::Reg reg_c02({"C02", "command lines with one drawn fault (18 kinds: option syntax, values, names, formats, unusable inputs and outputs, a full device, damaged files) among valid options, and informational options; exit status, messages, input and earlier output files examined; non-trivial: the tool was run; distinct by command line and input", c02_all, 14000, 200000, 60, {"permission failures are not generated because the checks run as root"}});

// ---- C03
void c03(Ctx &c) {
  std::string s;
  int how = c.weighted({5, 4, 3, 2, 1});
  if (how == 0) {
    s = hex6(c, gen_color(c));
    for (int i = 0; i < 6 && c.chance(1, 3); i++) s[c.choose(6)] = "0123456789abcdefABCDEF"[c.choose(22)];
  } else if (how == 1) {
    s = hex6(c, gen_color(c));
    int n = c.range(1, 2);
    for (int i = 0; i < n; i++) s[c.choose(6)] = (char)c.range(1, 255);
  } else if (how == 2) {
    int n = c.skewed(0, 14);
    for (int i = 0; i < n; i++) s += "0123456789abcdefABCDEF"[c.choose(22)];
  } else if (how == 3) {
    int n = c.skewed(0, 10);
    for (int i = 0; i < n; i++) s += (char)c.range(1, 255);
  } else {
    static const std::vector<std::string> f = {"white", "#fff", "#ffffff", "0xffffff", " fffff", "ffffff ", "+fffff", "-fffff", "ffffff\n", "0x00ff", "\xef\xbc\xa1" "fff"};
    s = c.pick(f);
  }
  c.note("\"" + hex(Bytes(s.begin(), s.end())) + "\"");
  bool ok = s.size() == 6;
  int v[6] = {0};
  for (size_t i = 0; i < s.size() && ok; i++) {
    unsigned char ch = s[i];
    if (ch >= '0' && ch <= '9') v[i] = ch - '0';
    else if (ch >= 'a' && ch <= 'f') v[i] = ch - 'a' + 10;
    else if (ch >= 'A' && ch <= 'F') v[i] = ch - 'A' + 10;
    else ok = false;
  }
  long live = eng::live_blocks();
  at_color *k = at_color_parse(s.c_str(), nullptr);
  if (!ok) {
    REQUIRE(!k, "accepted", "a string that is no colour yields %02x%02x%02x", k->r, k->g, k->b);
    c.label("refused");
  } else {
    REQUIRE(k, "refused", "a colour is refused");
    RGB w{(uint8_t)(v[0] * 16 + v[1]), (uint8_t)(v[2] * 16 + v[3]), (uint8_t)(v[4] * 16 + v[5])};
    REQUIRE(k->r == w.r && k->g == w.g && k->b == w.b, "value", "read as %02x%02x%02x", k->r, k->g, k->b);
    // copies, equality, luminance
    at_color *d = at_color_copy(k);
    REQUIRE(d && d != k && at_color_equal(d, k) && at_color_equal(k, k), "copy", "a copy is not equal");
    int which = c.choose(3);
    uint8_t delta = c.range(1, 255);
    if (which == 0) d->r += delta;
    else if (which == 1) d->g += delta;
    else d->b += delta;
    REQUIRE(!at_color_equal(d, k) && !at_color_equal(k, d), "equal", "%02x%02x%02x and %02x%02x%02x count as equal", k->r, k->g, k->b, d->r, d->g, d->b);
    REQUIRE(k->r == w.r && k->g == w.g && k->b == w.b, "copy", "changing a copy changes the original");
    at_color_set(d, w.g, w.b, w.r);
    REQUIRE(d->r == w.g && d->g == w.b && d->b == w.r, "set", "setting a colour gives another one");
    double l = .30 * w.r + .59 * w.g + .11 * w.b;
    REQUIRE(std::fabs(at_color_luminance(k) - l) <= .51, "luminance", "%02x%02x%02x has luminance %d", k->r, k->g, k->b, at_color_luminance(k));
    at_color_free(d);
    at_color_free(k);
    c.label("accepted");
  }
  REQUIRE(eng::live_blocks() == live, "leak", "memory is left behind");
  c.nontrivial(eng::hash_str(s));
}
static eng::Reg reg_c03({"C03", "strings: valid colours in drawn case, valid colours with one or two bytes replaced, hex digits of any length, arbitrary bytes, near misses; parsed value, refusal, copies, equality and luminance compared with a model; non-trivial: any string; distinct by string", c03, 60000, 900000, 10, {"NULL is not passed as a string"}});

// ---- W04
struct Loc {
  const char *name, *sample;  // sample: 1.5 as printed there
};
const std::vector<Loc> kLocales = {{"de_DE.UTF-8", "1,5"}, {"fr_FR.ISO-8859-1", "1,5"}, {"ps_AF.UTF-8", "1\xd9\xab" "5"}};
void w04(Ctx &c) {
  init_lib();
  setenv("AT_DATE_ZERO", "yes", 1);
  setenv("LOCPATH", locale_dir().c_str(), 1);
  const Loc &loc = c.pick(kLocales);
  int cat = c.coin() ? LC_ALL : LC_NUMERIC;
  if (c.chance(1, 25)) {  // the tool in such an environment
    Dir dir(c);
    TraceCase t;
    gen_case(c, t, 24, Opt::plain);
    std::string suf;
    Bytes file = encode(c, t.im, suf);
    put_file(dir.d + "/in." + suf, std::string(file.begin(), file.end()));
    CliOpts o;
    o.cwd = dir.d;
    Expect e;
    for (const char *n : {"error-threshold", "line-threshold", "line-reversion-threshold", "corner-threshold", "despeckle-tightness", "noise-removal", "width-weight-factor"})
      if (c.coin()) spell(c, Given{n, gen_real(c, 0, n[0] == 'n' ? 1 : n[0] == 'c' ? 180 : 3), true}, o.args);
    if (c.coin()) o.args.push_back("-despeckle-level=3");
    if (c.coin()) o.args.push_back("-centerline");
    o.args.push_back("-output-format=" + c.pick(kWriters));
    o.args.push_back("in." + suf);
    CliRun a = run_cli(c, o);
    o.env = {"LOCPATH=" + locale_dir(), (cat == LC_ALL ? "LC_ALL=" : "LC_NUMERIC=") + std::string(loc.name)};
    c.note(cli_line(o));
    CliRun b = run_cli(c, o);
    REQUIRE(a.status == b.status && a.out == b.out, "tool", "the tool's output depends on the locale: status %d and %d, %s", a.status, b.status, first_diff(a.out, b.out).c_str());
    c.label("tool");
    if (a.status == 0) c.nontrivial(eng::hash_str(cli_line(o), eng::hash_str(a.out)));
    return;
  }
  Curves k;
  CurveOpts co;
  std::string fmt = c.pick(kWriters);
  co.center = fmt != "pov";
  gen_curves(c, k, co);
  std::string name = gen_name(c);
  at_output_opts_type *oo = at_output_opts_new();
  oo->dpi = c.pick(std::vector<int>{72, 100, 300});
  c.note(fmt + sfmt(" dpi %d under %s: ", oo->dpi, loc.name) + show(k.s, 40));
  Msgs m1, m2;
  setlocale(LC_ALL, "C");
  std::string a = write_mem(fmt.c_str(), k.s, name.c_str(), oo, &m1);
  if (!setlocale(cat, loc.name)) {
    fprintf(stderr, "locale %s cannot be set\n", loc.name);
    _exit(77);
  }
  auto now = [&] { return sfmt("%.1f", 1.5); };
  REQUIRE(now() == loc.sample, "setup", "1.5 is printed as %s under %s", now().c_str(), loc.name);
  std::string before = setlocale(LC_ALL, nullptr);
  std::string b = write_mem(fmt.c_str(), k.s, name.c_str(), oo, &m2);
  REQUIRE(a == b && m1.fatal == m2.fatal, "bytes", "the %s file depends on the locale: %s", fmt.c_str(), first_diff(a, b).c_str());
  std::string after = setlocale(LC_ALL, nullptr);
  REQUIRE(before == after && now() == loc.sample, "locale-lost", "after writing %s the locale is %s instead of %s", fmt.c_str(), after.c_str(), before.c_str());
  std::string b2 = write_mem(fmt.c_str(), k.s, name.c_str(), oo, &m2);
  REQUIRE(a == b2, "bytes", "the second %s file depends on the locale: %s", fmt.c_str(), first_diff(a, b2).c_str());
  at_output_opts_free(oo);
  // reading and tracing
  if (c.chance(1, 4)) {
    TraceCase t;
    gen_case(c, t, 24, Opt::all);
    std::string suf;
    Bytes file = encode(c, t.im, suf);
    uint64_t h[2];
    for (int q = 0; q < 2; q++) {
      setlocale(LC_ALL, "C");
      if (q) setlocale(cat, loc.name);
      Msgs m;
      at_bitmap *bm = read_bytes(c, suf.c_str(), file, m);
      Splines s(at_splines_new(bm, t.fo.o, msg_cb, &m));
      h[q] = s.s ? hash_splines(s.s) : 0;
      at_bitmap_free(bm);
    }
    REQUIRE(h[0] == h[1], "curves", "the traced curves depend on the locale");
    REQUIRE(now() == loc.sample, "locale-lost", "the locale is changed by reading or tracing");
    c.label("traced");
  }
  c.label(fmt.c_str());
  c.nontrivial(eng::hash_str(fmt + loc.name, hash_splines(k.s)));
}
static eng::Reg reg_w04({"W04", "curves traced or built by hand written in any format, pictures read and traced, and command lines with numeric options run, under the C locale and under locales with a comma or a multi-byte decimal separator; outputs and the caller's locale afterwards compared; non-trivial: a file was written; distinct by format, locale and curves", w04, 40000, 600000, 60, {"process-wide locales only (setlocale); thread locales are not used", "AT_DATE_ZERO=yes fixes the date written into some formats"}});
}  // namespace
