// P01, P02: the C++ wrapper.
#include "cli.h"
#include "draw.h"
#include "readers.h"
#include <Autotrace.h>
#include <FittingOptions.h>
#include <FittingOptionsBuidler.h>
#include <InputOptions.h>
#include <InputOptionsBuilder.h>
#include <Options.h>
#include <OutputOptions.h>
#include <OutputOptionsBuilder.h>
#include <dirent.h>
#include <json11.hpp>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

namespace {
// ---- the options as data
struct NumKey {
  const char *name;
  unsigned fitting_opts_type::*m;
  unsigned def;
  int max;
};
struct RealKey {
  const char *name;
  float fitting_opts_type::*m;
  float def, max;
};
struct BoolKey {
  const char *name;
  bool fitting_opts_type::*m;
};
const std::vector<NumKey> kNum = {{"charcode", &fitting_opts_type::charcode, 0, 255}, {"color_count", &fitting_opts_type::color_count, 0, 256}, {"corner_surround", &fitting_opts_type::corner_surround, 4, 20}, {"filter_iterations", &fitting_opts_type::filter_iterations, 4, 20}, {"tangent_surround", &fitting_opts_type::tangent_surround, 3, 20}, {"despeckle_level", &fitting_opts_type::despeckle_level, 0, 20}};
const std::vector<RealKey> kReal = {{"corner_threshold", &fitting_opts_type::corner_threshold, 100, 180}, {"error_threshold", &fitting_opts_type::error_threshold, 2, 10}, {"corner_always_threshold", &fitting_opts_type::corner_always_threshold, 60, 180}, {"line_reversion_threshold", &fitting_opts_type::line_reversion_threshold, .01f, 5}, {"line_threshold", &fitting_opts_type::line_threshold, 1, 5}, {"despeckle_tightness", &fitting_opts_type::despeckle_tightness, 2, 8}, {"noise_removal", &fitting_opts_type::noise_removal, .99f, 1}, {"width_weight_factor", &fitting_opts_type::width_weight_factor, 6, 10}};
const std::vector<BoolKey> kBool = {{"remove_adjacent_corners", &fitting_opts_type::remove_adjacent_corners}, {"remove_knees", &fitting_opts_type::remove_knees}, {"centerline", &fitting_opts_type::centerline}, {"preserve_width", &fitting_opts_type::preserve_width}};

struct Model {  // of the fitting options, and with charcode and bg of the input options
  std::vector<unsigned> num;
  std::vector<float> real;
  std::vector<int> flag;
  RGB bg{0, 0, 0};
  Model() {
    for (auto &k : kNum) num.push_back(k.def);
    for (auto &k : kReal) real.push_back(k.def);
    flag.assign(kBool.size(), 0);
  }
};
void same(const FittingOptions &o, const Model &m, const char *what) {
  for (size_t i = 0; i < kNum.size(); i++) REQUIRE(o.*kNum[i].m == m.num[i], "value", "%s: %s is %u instead of %u", what, kNum[i].name, o.*kNum[i].m, m.num[i]);
  for (size_t i = 0; i < kReal.size(); i++) REQUIRE(o.*kReal[i].m == m.real[i], "value", "%s: %s is %.9g instead of %.9g", what, kReal[i].name, o.*kReal[i].m, m.real[i]);
  for (size_t i = 0; i < kBool.size(); i++) REQUIRE(o.*kBool[i].m == (m.flag[i] != 0), "value", "%s: %s is %d instead of %d", what, kBool[i].name, o.*kBool[i].m, m.flag[i]);
  REQUIRE(o.background_color, "value", "%s: no background colour", what);
  RGB b{o.background_color->r, o.background_color->g, o.background_color->b};
  REQUIRE(b == m.bg, "value", "%s: background %06x instead of %06x", what, b.u(), m.bg.u());
}
struct InModel {
  unsigned charcode = 0;
  RGB bg{0, 0, 0};
};
void same(const InputOptions &o, const InModel &m, const char *what) {
  REQUIRE(o.charcode == m.charcode, "value", "%s: charcode is %u instead of %u", what, o.charcode, m.charcode);
  REQUIRE(o.background_color, "value", "%s: no background colour", what);
  RGB b{o.background_color->r, o.background_color->g, o.background_color->b};
  REQUIRE(b == m.bg, "value", "%s: background %06x instead of %06x", what, b.u(), m.bg.u());
}

// ---- JSON text written by hand
std::string ws(Ctx &c) { return c.chance(1, 5) ? c.pick(std::vector<std::string>{" ", "\n", "\t  ", " \n "}) : ""; }
std::string wrong_for_number(Ctx &c) { return c.pick(std::vector<std::string>{"\"12\"", "true", "null", "[1]", "{}", "\"\"", "[]"}); }
std::string wrong_for_bool(Ctx &c) { return c.pick(std::vector<std::string>{"\"true\"", "1", "0", "null", "[true]", "{}", "1.5"}); }
std::string wrong_for_object(Ctx &c) { return c.pick(std::vector<std::string>{"\"ffffff\"", "1", "true", "null", "[1,2,3]", "[]"}); }
std::string real_text(Ctx &c, double lo, double hi, double &v) {
  double x = c.real(lo, hi);
  std::string s = c.weighted({3, 2, 1, 1}) == 0 ? sfmt("%.3f", x) : c.coin() ? sfmt("%.17g", x) : c.coin() ? sfmt("%.0f", x) : sfmt("%.4e", x);
  v = strtod(s.c_str(), nullptr);
  return s;
}
RGB edge_color(Ctx &c) {
  static const std::vector<uint8_t> e = {0, 255, 1, 254, 128};
  auto one = [&] { return c.coin() ? c.pick(e) : c.byte(); };
  RGB k;
  k.r = one(), k.g = one(), k.b = one();
  return k;
}
// an object for a colour; ok tells whether it stands for one
std::string color_text(Ctx &c, RGB &k, bool &ok) {
  k = edge_color(c);
  ok = true;
  int v[3] = {k.r, k.g, k.b};
  const char *n[3] = {"red", "green", "blue"};
  std::vector<std::string> parts;
  int bad = c.chance(1, 4) ? (int)c.choose(3) : -1;
  for (int i = 0; i < 3; i++) {
    std::string t = std::to_string(v[i]);
    if (i == bad) {
      ok = false;
      switch (c.choose(3)) {
        case 0: continue;  // missing
        case 1: t = wrong_for_number(c); break;
        default: t = std::to_string(c.pick(std::vector<int>{256, -1, 257, 300, 511, 512, -255, -256, 1000, 65536, 100000})); break;
      }
    }
    parts.push_back(sfmt("\"%s\"", n[i]) + ws(c) + ":" + ws(c) + t);
  }
  for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[c.choose(i)]);
  std::string s = "{";
  for (size_t i = 0; i < parts.size(); i++) s += (i ? "," : "") + ws(c) + parts[i];
  return s + ws(c) + "}";
}
std::string object(Ctx &c, std::vector<std::string> parts) {
  if (c.chance(1, 4)) parts.push_back(c.pick(std::vector<std::string>{"\"unknown\":1", "\"Centerline\":true", "\"\":{}", "\"red\":12", "\"colour_count\":[1,2]", "\"background\":{\"red\":1,\"green\":2,\"blue\":3}"}));
  for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[c.choose(i)]);
  std::string s = "{";
  for (size_t i = 0; i < parts.size(); i++) s += (i ? "," : "") + ws(c) + parts[i];
  return s + ws(c) + "}";
}
std::string fit_text(Ctx &c, Model &m) {
  std::vector<std::string> parts;
  int den = c.pick(std::vector<int>{1, 2, 4, 12});
  auto take = [&] { return c.chance(1, den); };
  auto wrong = [&] { return c.chance(1, 8); };
  for (size_t i = 0; i < kNum.size(); i++)
    if (take()) {
      std::string t;
      if (wrong()) t = wrong_for_number(c);
      else {
        m.num[i] = c.chance(1, 8) ? c.pick(std::vector<int>{0, 65535, 65536, 2147483647}) : c.range(0, kNum[i].max);
        t = std::to_string(m.num[i]);
        if (c.chance(1, 8)) t += ".0";
      }
      parts.push_back(sfmt("\"%s\":", kNum[i].name) + ws(c) + t);
    }
  for (size_t i = 0; i < kReal.size(); i++)
    if (take()) {
      std::string t;
      if (wrong()) t = wrong_for_number(c);
      else {
        double v;
        t = real_text(c, 0, kReal[i].max, v);
        m.real[i] = (float)v;
      }
      parts.push_back(sfmt("\"%s\":", kReal[i].name) + ws(c) + t);
    }
  for (size_t i = 0; i < kBool.size(); i++)
    if (take()) {
      std::string t;
      if (wrong()) t = wrong_for_bool(c);
      else m.flag[i] = c.coin(), t = m.flag[i] ? "true" : "false";
      parts.push_back(sfmt("\"%s\":", kBool[i].name) + ws(c) + t);
    }
  if (take()) {
    std::string t;
    if (wrong()) t = wrong_for_object(c);
    else {
      RGB k;
      bool ok;
      t = color_text(c, k, ok);
      if (ok) m.bg = k;
    }
    parts.push_back("\"background_color\":" + ws(c) + t);
  }
  return object(c, parts);
}
std::string in_text(Ctx &c, InModel &m) {
  std::vector<std::string> parts;
  if (!c.chance(1, 4)) {
    if (c.chance(1, 8)) parts.push_back("\"charcode\":" + wrong_for_number(c));
    else m.charcode = c.chance(1, 6) ? 2147483647 : c.range(0, 255), parts.push_back("\"charcode\":" + std::to_string(m.charcode));
  }
  if (!c.chance(1, 4)) {
    if (c.chance(1, 8)) parts.push_back("\"background_color\":" + wrong_for_object(c));
    else {
      RGB k;
      bool ok;
      std::string t = color_text(c, k, ok);
      if (ok) m.bg = k;
      parts.push_back("\"background_color\":" + t);
    }
  }
  return object(c, parts);
}
json11::Json parse(const std::string &t) {
  std::string err;
  json11::Json j = json11::Json::parse(t, err);
  REQUIRE(err.empty(), "setup", "generated text is not JSON: %s: %s", err.c_str(), t.c_str());
  return j;
}
// through text, as a caller that stores options would
json11::Json via_text(const json11::Json &j) { return parse(j.dump()); }

void modify(Ctx &c, FittingOptions &o, Model &m) {
  int n = c.range(1, 5);
  for (int i = 0; i < n; i++) switch (c.choose(4)) {
      case 0: {
        size_t k = c.choose(kNum.size());
        o.*kNum[k].m = m.num[k] = c.chance(1, 8) ? 2147483647 : c.range(0, kNum[k].max);
        break;
      }
      case 1: {
        size_t k = c.choose(kReal.size());
        double v;
        real_text(c, 0, kReal[k].max, v);
        o.*kReal[k].m = m.real[k] = (float)v;
        break;
      }
      case 2: {
        size_t k = c.choose(kBool.size());
        o.*kBool[k].m = m.flag[k] = c.coin();
        break;
      }
      default:
        m.bg = edge_color(c);
        o.background_color->r = m.bg.r, o.background_color->g = m.bg.g, o.background_color->b = m.bg.b;
    }
}
FittingOptions build(Ctx &c, Model &m) {
  auto b = FittingOptionsBuilder::builder();
  auto num = [&](const char *n) -> unsigned {
    for (size_t i = 0; i < kNum.size(); i++)
      if (!strcmp(n, kNum[i].name)) return m.num[i] = c.range(0, kNum[i].max);
    abort();
  };
  auto real = [&](const char *n) -> float {
    for (size_t i = 0; i < kReal.size(); i++)
      if (!strcmp(n, kReal[i].name)) return m.real[i] = (float)c.real(0, kReal[i].max);
    abort();
  };
  auto flag = [&](const char *n) -> bool {
    for (size_t i = 0; i < kBool.size(); i++)
      if (!strcmp(n, kBool[i].name)) return m.flag[i] = c.coin();
    abort();
  };
  int n = c.skewed(0, 14);
  for (int i = 0; i < n; i++) switch (c.choose(18)) {
      case 0: m.bg = edge_color(c), b.setBackgroudColor({m.bg.r, m.bg.g, m.bg.b}); break;
      case 1: b.setCharCode(num("charcode")); break;
      case 2: b.setColorCount(num("color_count")); break;
      case 3: b.setCornerAlwaysThreshold(real("corner_always_threshold")); break;
      case 4: b.setCornerSurround(num("corner_surround")); break;
      case 5: b.setCornerThreshold(real("corner_threshold")); break;
      case 6: b.setErrorThreshold(real("error_threshold")); break;
      case 7: b.setFilterIterations(num("filter_iterations")); break;
      case 8: b.setLineReversionThreshold(real("line_reversion_threshold")); break;
      case 9: b.setLineThreshold(real("line_threshold")); break;
      case 10: b.setRemoveAdjacentCorners(flag("remove_adjacent_corners")); break;
      case 11: b.setTangentSurround(num("tangent_surround")); break;
      case 12: b.setDespeckleLevel(num("despeckle_level")); break;
      case 13: b.setDespeckleTightness(real("despeckle_tightness")); break;
      case 14: b.setNoiseRemoval(real("noise_removal")); break;
      case 15: b.setCenterline(flag("centerline")); break;
      case 16: b.setPreserveWidth(flag("preserve_width")); break;
      default: b.setWidthWeightFactor(real("width_weight_factor")); break;
    }
  return b.build();
}

void history(Ctx &c) {
  std::vector<std::pair<std::unique_ptr<FittingOptions>, Model>> f;
  std::vector<std::pair<std::unique_ptr<InputOptions>, InModel>> in;
  int steps = c.range(2, 14);
  uint64_t h = 1;
  for (int s = 0; s < steps; s++) {
    int op = c.choose(13);
    h = h * 31 + op;
    switch (op) {
      case 0:
        f.emplace_back(std::make_unique<FittingOptions>(), Model());
        c.note("new fitting options");
        break;
      case 1: {
        Model m;
        f.emplace_back(std::make_unique<FittingOptions>(build(c, m)), m);
        c.note("built fitting options");
        break;
      }
      case 2: {
        Model m;
        std::string t = fit_text(c, m);
        c.note("from " + t);
        f.emplace_back(std::make_unique<FittingOptions>(parse(t)), m);
        h = eng::hash_str(t, h);
        break;
      }
      case 3:
        if (!f.empty()) {  // copy
          size_t i = c.choose(f.size());
          c.note(sfmt("copy of %zu", i));
          auto n = std::make_unique<FittingOptions>(*f[i].first);
          Model m = f[i].second;
          f.emplace_back(std::move(n), m);
        }
        break;
      case 4:
        if (!f.empty()) {  // assignment, to itself too
          size_t i = c.choose(f.size()), j = c.choose(f.size());
          c.note(sfmt("%zu = %zu", i, j));
          *f[i].first = *f[j].first;
          f[i].second = f[j].second;
        }
        break;
      case 5:
        if (!f.empty()) {
          size_t i = c.choose(f.size());
          c.note(sfmt("modify %zu", i));
          modify(c, *f[i].first, f[i].second);
        }
        break;
      case 6:
        if (!f.empty()) {
          size_t i = c.choose(f.size());
          c.note(sfmt("round trip of %zu: ", i) + f[i].first->toJson().dump());
          FittingOptions r(via_text(f[i].first->toJson()));
          same(r, f[i].second, "after a round trip");
          if (c.coin()) *f[i].first = FittingOptions(via_text(f[i].first->toJson()));
        }
        break;
      case 7:
        if (!f.empty()) {
          size_t i = c.choose(f.size());
          c.note(sfmt("delete %zu", i));
          f.erase(f.begin() + i);
        }
        break;
      case 8: {
        InModel m;
        switch (c.choose(3)) {
          case 0: in.emplace_back(std::make_unique<InputOptions>(), m); break;
          case 1: {
            auto b = InputOptionsBuilder::builder();
            int n = c.range(0, 3);
            for (int i = 0; i < n; i++)
              if (c.coin()) m.bg = edge_color(c), b.setBackgroudColor({m.bg.r, m.bg.g, m.bg.b});
              else m.charcode = c.range(0, 300), b.setCharCode(m.charcode);
            in.emplace_back(std::make_unique<InputOptions>(b.build()), m);
            if (c.coin()) {  // the builder can be used on
              InModel m2 = m;
              m2.charcode = 7;
              b.setCharCode(7);
              in.emplace_back(std::make_unique<InputOptions>(b.build()), m2);
            }
            break;
          }
          default: {
            std::string t = in_text(c, m);
            c.note("input from " + t);
            in.emplace_back(std::make_unique<InputOptions>(parse(t)), m);
            h = eng::hash_str(t, h);
          }
        }
        c.note("input options");
        break;
      }
      case 9:
        if (!in.empty()) {
          size_t i = c.choose(in.size()), j = c.choose(in.size());
          if (c.coin()) {
            c.note(sfmt("input %zu = %zu", i, j));
            *in[i].first = *in[j].first;
            in[i].second = in[j].second;
          } else {
            auto n = std::make_unique<InputOptions>(*in[i].first);
            InModel m = in[i].second;
            in.emplace_back(std::move(n), m);
          }
        }
        break;
      case 10:
        if (!in.empty()) {
          size_t i = c.choose(in.size());
          InputOptions r(via_text(in[i].first->toJson()));
          same(r, in[i].second, "after a round trip");
          in[i].second.bg = edge_color(c);
          auto *k = in[i].first->background_color;
          k->r = in[i].second.bg.r, k->g = in[i].second.bg.g, k->b = in[i].second.bg.b;
          if (c.chance(1, 3)) in.erase(in.begin() + i);
        }
        break;
      case 11: {  // output options
        int dpi = c.pick(std::vector<int>{1, 72, 100, 300, 1200, 0, 65536, 2147483647});
        OutputOptions a = OutputOptionsBuilder::builder().setDpi(dpi).build();
        REQUIRE((int)a.dpi == dpi, "value", "dpi %d is stored as %d", dpi, (int)a.dpi);
        OutputOptions b(via_text(a.toJson()));
        REQUIRE((int)b.dpi == dpi, "value", "dpi %d comes back as %d", dpi, (int)b.dpi);
        bool wrong = c.coin();
        OutputOptions d(parse(object(c, {"\"dpi\":" + (wrong ? wrong_for_number(c) : std::to_string(dpi))})));
        REQUIRE((int)d.dpi == (wrong ? 72 : dpi), "value", "dpi is %d", (int)d.dpi);
        OutputOptions e2(parse("{}"));
        REQUIRE(e2.dpi == 72 && OutputOptions().dpi == 72, "value", "default dpi is %d", (int)e2.dpi);
        c.label("output options");
        break;
      }
      default: {  // anything but an object is refused
        json11::Json j = parse(c.pick(std::vector<std::string>{"[]", "1", "\"x\"", "true", "null", "[{}]"}));
        int which = c.choose(3);
        bool thrown = false;
        try {
          if (which == 0) FittingOptions x(j);
          else if (which == 1) InputOptions x(j);
          else OutputOptions x(j);
        } catch (const std::exception &) {
          thrown = true;
        }
        REQUIRE(thrown, "accepted", "options are made from %s", j.dump().c_str());
        c.label("refused");
      }
    }
    for (auto &p : f) same(*p.first, p.second, "fitting options");
    for (auto &p : in) same(*p.first, p.second, "input options");
  }
  c.nontrivial(h);
}
// objects that are gone leave no memory behind
void lifetimes(Ctx &c) {
  RGB k = edge_color(c);
  int n = c.range(0, 3), op[3] = {(int)c.choose(6), (int)c.choose(6), (int)c.choose(6)};
  auto once = [&] {
    FittingOptions a, b;
    InputOptions i, j;
    for (int q = 0; q < n; q++) switch (op[q]) {
        case 0: a = b; break;
        case 1: i = j; break;
        case 2: b = FittingOptionsBuilder::builder().setBackgroudColor({k.r, k.g, k.b}).build(); break;
        case 3: j = InputOptionsBuilder::builder().setBackgroudColor({k.r, k.g, k.b}).setBackgroudColor({k.g, k.r, k.b}).build(); break;
        case 4: a = FittingOptions(b.toJson()), i = InputOptions(j.toJson()); break;
        default: {
          Options o(a, i, OutputOptions());
          Options o2(o);
          REQUIRE(o2.fittingOptions.background_color->r == a.background_color->r && o2.inputOptions.background_color->b == i.background_color->b, "value", "options copied together have other colours");
        }
      }
  };
  once();
  long live = eng::live_blocks();
  once();
  REQUIRE(eng::live_blocks() == live, "leak", "%ld blocks are left behind", eng::live_blocks() - live);
}
void p01(Ctx &c) {
  init_lib();
  history(c);
  lifetimes(c);
}
static eng::Reg reg_p01({"P01", "histories of 2..14 operations on fitting, input and output option objects (default, built, from generated JSON text with drawn keys, values, wrong types and bad colours, copied, assigned, modified, round trip through JSON text, deleted), every object compared with a model after every step; non-trivial: every history; distinct by operations and texts", p01, 40000, 600000, 20, {"numbers in JSON are finite; counts are whole numbers from 0 to 2147483647", "json11 is taken from the build environment and trusted"}});

// ---- P02
int fds() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}
void p02(Ctx &c) {
  init_lib();
  setenv("AT_DATE_ZERO", "yes", 1);
  std::string dir = sfmt("%s/wrap%d", c.scratch(), (int)getpid());
  mkdir(dir.c_str(), 0700);
  struct Clean {
    std::string d;
    ~Clean() {
      if (DIR *p = opendir(d.c_str())) {
        while (dirent *e = readdir(p))
          if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
        closedir(p);
      }
      rmdir(d.c_str());
    }
  } clean{dir};
  // the picture
  std::string suf = c.pick(kReaders);
  Bytes file = base_file(c, suf);
  Model m;
  FittingOptions fo = build(c, m);
  InModel im;
  im.charcode = 0;
  if (c.coin()) modify(c, fo, m);
  if (c.chance(1, 2)) {  // a picture with shapes
    auto pal = gen_palette(c, 3, false);
    Image pic = gen_shapes(c, 1, 30, 1, 30, 3, pal);
    std::string t = sfmt("P6 %d %d 255\n", pic.w, pic.h);
    file.assign(t.begin(), t.end());
    file.insert(file.end(), pic.d.begin(), pic.d.end());
    suf = c.coin() ? "ppm" : "pnm";
    m.bg = c.coin() ? pal[0] : m.bg;
    fo.background_color->r = m.bg.r, fo.background_color->g = m.bg.g, fo.background_color->b = m.bg.b;
  }
  for (size_t i = 0; i < kNum.size(); i++)  // keep the values sensible and the cost low
    if (m.num[i] > (unsigned)kNum[i].max || (!strcmp(kNum[i].name, "color_count") && m.num[i] && !c.chance(1, 6))) fo.*kNum[i].m = m.num[i] = kNum[i].def;
  if (c.chance(1, 3)) {
    static const std::vector<RGB> e = {{255, 255, 255}, {0, 0, 0}};
    im.bg = c.pick(e);
  }
  if (suf == "gf") im.charcode = c.chance(1, 2) ? 0 : c.range(0, 255);
  int damaged = 0;
  if (c.chance(1, 6)) {
    mutate(c, file, suf);
    damaged = 1;
  }
  if (declared_pixels(suf, file) > 3000) {
    c.label("skipped: more than 3000 pixels");
    return;
  }
  std::string fmt = c.pick(kWriters);
  std::string in = dir + "/in." + suf, out = dir + "/out." + fmt;
  put_file(in, std::string(file.begin(), file.end()));
  std::string old;
  bool missing_in = false, bad_suffix = false, no_dir = false, full = false;
  switch (c.weighted({12, 1, 1, 1, 1, 1})) {
    case 1: missing_in = true, in = dir + "/absent." + suf; break;
    case 2: bad_suffix = true, in = dir + "/in.xyz"; put_file(in, "x"); break;
    case 3: bad_suffix = true, out = dir + c.pick(std::vector<std::string>{"/out", "/out.xyz", "/out.png", "/out."}); break;
    case 4: no_dir = true, out = dir + "/none/out." + fmt; break;
    case 5: full = true; if (symlink("/dev/full", out.c_str())) _exit(77); break;
    default: break;
  }
  if (!no_dir && !full && c.coin()) {
    old = std::string(c.range(1, 2000), 'Z');
    put_file(out, old);
  }
  unsigned dpi = c.pick(std::vector<int>{72, 72, 100, 300});
  c.note("wrapper " + in.substr(dir.size() + 1) + " -> " + out.substr(dir.size() + 1) + " " + show(&fo) + sfmt(" input background %06x charcode %u dpi %u", im.bg.u(), im.charcode, dpi));
  c.note("input " + hex(file, 2000));
  // the library
  Msgs mr, mt, mw;
  std::string want;
  size_t px = 0;
  if (!missing_in && !bad_suffix) {
    at_input_opts_type *io = at_input_opts_new();
    at_color_free(io->background_color);
    io->background_color = at_color_new(im.bg.r, im.bg.g, im.bg.b);
    io->charcode = im.charcode;
    FitOpts f2;
    f2.bg(m.bg);
    for (size_t i = 0; i < kNum.size(); i++) f2.o->*kNum[i].m = m.num[i];
    for (size_t i = 0; i < kReal.size(); i++) f2.o->*kReal[i].m = m.real[i];
    for (size_t i = 0; i < kBool.size(); i++) f2.o->*kBool[i].m = m.flag[i];
    at_bitmap *b = at_bitmap_read(at_input_get_handler_by_suffix((char *)suf.c_str()), (char *)in.c_str(), io, msg_cb, &mr);
    px = (size_t)at_bitmap_get_width(b) * at_bitmap_get_height(b);
    if (px && px <= 3000 && !mr.fatal) {
      at_splines_type *s = at_splines_new(b, f2.o, msg_cb, &mt);
      if (s) {
        at_output_opts_type *oo = at_output_opts_new();
        oo->dpi = dpi;
        want = write_mem(fmt.c_str(), s, out.c_str(), oo, &mw);
        at_output_opts_free(oo);
        at_splines_free(s);
      }
    }
    at_bitmap_free(b);
    at_input_opts_free(io);
    if (px > 3000) {
      c.label("skipped: more than 3000 pixels");
      return;
    }
  }
  // the wrapper; the options are temporaries
  auto run = [&](bool &ok, std::string &err) {
    std::unique_ptr<Autotrace> a;
    {
      auto ib = InputOptionsBuilder::builder();
      ib.setBackgroudColor({im.bg.r, im.bg.g, im.bg.b}).setCharCode(im.charcode);
      FittingOptions copy(fo);
      a = std::make_unique<Autotrace>(in, out, Options(copy, ib.build(), OutputOptionsBuilder::builder().setDpi(dpi).build()));
    }
    auto r = a->produceOutput();
    ok = r.has_value();
    if (!ok) err = r.error();
  };
  bool ok = false;
  int fd0 = fds();
  {
    std::string err;
    run(ok, err);
    if (ok) REQUIRE(err.empty(), "error", "success with an error: %s", err.c_str());
    else REQUIRE(!err.empty(), "error", "failure without an error text");
  }
  REQUIRE(fds() == fd0, "fd-leak", "%d file descriptors before, %d after", fd0, fds());
  bool unreadable = missing_in || bad_suffix || mr.fatal;
  if (unreadable) {
    REQUIRE(!ok, "success", "the wrapper reports success: %s", mr.last.c_str());
    if (!old.empty()) REQUIRE(file_text(out) == old, "output-lost", "the existing output file was changed");
    else if (!full && !no_dir) REQUIRE(access(out.c_str(), F_OK) != 0, "output-lost", "an output file was made for an unusable input");
    c.label("unusable input");
  } else if (!px) {
    c.label("empty picture");
    return;
  } else if (mt.fatal || mw.fatal || no_dir || (full && !want.empty())) {
    REQUIRE(!ok, "success", "the wrapper reports success: %s %s", mt.last.c_str(), mw.last.c_str());
    c.label("unwritable");
  } else {
    REQUIRE(ok, "failure", "the wrapper fails");
    if (!full) {
      std::string got = file_text(out);
      size_t k = 0;
      while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
      REQUIRE(got == want, "output", "the wrapper's %s file differs from the library's at byte %zu of %zu and %zu", fmt.c_str(), k, got.size(), want.size());
    }
    c.label(fmt.c_str());
  }
  if (damaged) c.label("damaged");
  // no memory may be lost, whatever the outcome
  {
    long live = eng::live_blocks();
    {
      bool o2;
      std::string err;
      run(o2, err);
    }
    REQUIRE(eng::live_blocks() == live, "leak", "%ld blocks are left behind", eng::live_blocks() - live);
  }
  c.nontrivial(eng::hash_str(in.substr(dir.size()) + out.substr(dir.size()) + show(&fo), eng::hash_bytes(file.data(), file.size())));
}
static eng::Reg reg_p02({"P02", "a generated or damaged picture file, drawn fitting, input and output options given as temporaries, an output name in a drawn format; the wrapper's file compared byte for byte with the C library's for the same values, failures (unreadable, unknown format, unwritable, full device, refused by the writer) and leftovers examined; non-trivial: the wrapper was run to success or to an expected failure; distinct by names, options and file", p02, 18000, 300000, 60, {"pictures of more than 3000 pixels are skipped for time", "pictures without pixels are not judged", "AT_DATE_ZERO=yes fixes the date written into some formats"}});
}  // namespace
