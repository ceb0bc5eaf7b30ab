// R07: format lookup and registration against a model.
#include "common.h"
#include <map>
#include <algorithm>

namespace {
int g_in = -1, g_out = -1;
std::string g_name;
int g_box[4];

template <int N> at_bitmap marker_in(char *name, at_input_opts_type *, at_msg_func, void *, void *) {
  g_in = N;
  g_name = name;
  return at_bitmap_init(NULL, 2, 1, 1);
}
template <int N> int marker_out(FILE *, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *, at_splines_type, at_msg_func, void *, void *) {
  g_out = N;
  g_name = name;
  g_box[0] = llx, g_box[1] = lly, g_box[2] = urx, g_box[3] = ury;
  return 0;
}
const at_input_func ins[] = {marker_in<0>, marker_in<1>, marker_in<2>};
const at_output_func outs[] = {marker_out<0>, marker_out<1>, marker_out<2>};

std::string lower(std::string s) {
  for (auto &ch : s)
    if (ch >= 'A' && ch <= 'Z') ch += 32;
  return s;
}
std::string recase(Ctx &c, std::string s) {
  int how = c.choose(4);
  if (how == 0) return s;
  for (auto &ch : s)
    if (isalpha((unsigned char)ch) && (how == 1 || c.coin())) ch = toupper(ch);
  return s;
}
std::string gen_suffix(Ctx &c, const std::vector<std::string> &known) {
  switch (c.weighted({6, 3, 2, 2})) {
    case 0: return recase(c, c.pick(known));
    case 1: {
      static const std::vector<std::string> own = {"zz", "q1", "abc", "svgz", "x-y", "pn", "bmpx", "ng"};
      return recase(c, c.pick(own));
    }
    case 2: {  // near misses of a known suffix
      std::string s = c.pick(known);
      int how = c.choose(3);
      if (how == 0) s.pop_back();
      else if (how == 1) s += (char)('a' + c.choose(26));
      else s = "-" + s;
      return s;
    }
    default: {
      std::string s;
      int n = c.range(0, 5);
      for (int i = 0; i < n; i++) {
        char ch = c.range(33, 126);
        if (ch == '.') ch = '_';
        s += ch;
      }
      return s;
    }
  }
}
std::string gen_stem(Ctx &c) {
  static const std::vector<std::string> k = {"a", "", "x.y", "dir.png/a", "./b", "../c", "pic.svg", "very long name with spaces", ".", "..", "a.b.c.d", "\xc3\xa9t\xc3\xa9"};
  return c.pick(k);
}
}  // namespace

static void r07(Ctx &c) {
  // model: suffix -> marker, -1 for built-in formats
  std::map<std::string, int> mi, mo;
  bool late = c.chance(1, 6);  // some handlers are registered before the library is initialised
  std::vector<std::pair<std::string, int>> early;
  if (late) {
    std::string s = recase(c, c.coin() ? "q1" : "abc");
    int k = c.choose(3);
    at_input_add_handler(s.c_str(), "early", ins[k]);
    mi[lower(s)] = k;
  }
  init_lib();
  for (auto &s : kReaders) mi.insert({s, -1});
  for (auto &s : kWriters) mo.insert({s, -1});
  int n = c.range(1, 12);
  std::string log;
  int hits = 0, misses = 0;
  for (int i = 0; i < n; i++) {
    bool in = c.coin();
    auto &model = in ? mi : mo;
    auto &known = in ? kReaders : kWriters;
    if (c.chance(2, 5)) {
      std::string s = gen_suffix(c, known);
      if (s.empty()) continue;
      int k = c.choose(3);
      int r = in ? (c.coin() ? at_input_add_handler(s.c_str(), "d", ins[k]) : at_input_add_handler_full(s.c_str(), "d", ins[k])) : at_output_add_handler(s.c_str(), "d", outs[k]);
      log += sfmt("add %s '%s' marker %d\n", in ? "in" : "out", s.c_str(), k);
      REQUIRE(r == 1, "add", "registering '%s' returned %d", s.c_str(), r);
      model.insert({lower(s), k});
      continue;
    }
    // look up
    std::string suf = gen_suffix(c, known);
    bool by_suffix = c.chance(1, 3);
    std::string name = by_suffix ? suf : c.chance(1, 6) ? suf : gen_stem(c) + "." + suf;
    log += sfmt("%s %s '%s'\n", in ? "in" : "out", by_suffix ? "suffix" : "name", name.c_str());
    std::string key;
    if (by_suffix) key = lower(name);
    else {
      size_t dot = name.rfind('.');
      key = dot == std::string::npos ? "" : lower(name.substr(dot + 1));
    }
    auto it = key.empty() ? model.end() : model.find(key);
    std::string copy = name;
    void *h = in ? (void *)(by_suffix ? at_input_get_handler_by_suffix(&copy[0]) : at_input_get_handler(&copy[0]))
                 : (void *)(by_suffix ? at_output_get_handler_by_suffix(&copy[0]) : at_output_get_handler(&copy[0]));
    c.note(log);
    REQUIRE(copy == name, "modified", "looking up '%s' changed the name to '%s'", name.c_str(), copy.c_str());
    REQUIRE((h != nullptr) == (it != model.end()), "lookup", "'%s' is %s but the lookup %s", name.c_str(), it != model.end() ? "registered" : "not registered", h ? "found a handler" : "found nothing");
    if (!h) {
      misses++;
      continue;
    }
    hits++;
    // the same handler whichever way it is looked up
    std::string up = key;
    for (auto &ch : up) ch = toupper(ch);
    void *h2 = in ? (void *)at_input_get_handler_by_suffix(&up[0]) : (void *)at_output_get_handler_by_suffix(&up[0]);
    REQUIRE(h == h2, "lookup", "'%s' and suffix '%s' give different handlers", name.c_str(), up.c_str());
    std::string fname = std::string(c.scratch()) + "/nonexistent." + key;
    g_in = g_out = -1;
    g_name = "";
    if (in) {
      Msgs m;
      at_bitmap *b = at_bitmap_read((at_bitmap_reader *)h, &fname[0], nullptr, msg_cb, &m);
      REQUIRE(b, "null", "no bitmap object");
      REQUIRE(g_in == it->second, "dispatch", "reading '%s' reached handler %d, registered was %d", name.c_str(), g_in, it->second);
      if (it->second >= 0) {
        REQUIRE(g_name == fname, "dispatch", "handler got the name '%s' instead of '%s'", g_name.c_str(), fname.c_str());
        REQUIRE(at_bitmap_get_width(b) == 2 && at_bitmap_get_height(b) == 1 && at_bitmap_get_planes(b) == 1, "dispatch", "the handler's bitmap did not arrive");
      } else {
        REQUIRE(at_bitmap_get_width(b) * at_bitmap_get_height(b) == 0, "missing-file", "a missing file was read as %dx%d", at_bitmap_get_width(b), at_bitmap_get_height(b));
        REQUIRE(m.fatal > 0, "silent", "reading a missing file as '%s' reported nothing", key.c_str());
      }
      at_bitmap_free(b);
    } else if (it->second >= 0) {
      Image im(c.range(1, 9), c.range(1, 9), 1);
      at_bitmap *b = to_bitmap(im);
      FitOpts fo;
      at_splines_type *s = at_splines_new(b, fo.o, nullptr, nullptr);
      at_splines_write((at_spline_writer *)h, stderr, &fname[0], nullptr, s, nullptr, nullptr);
      REQUIRE(g_out == it->second, "dispatch", "writing '%s' reached handler %d, registered was %d", name.c_str(), g_out, it->second);
      REQUIRE(g_name == fname, "dispatch", "handler got the name '%s' instead of '%s'", g_name.c_str(), fname.c_str());
      REQUIRE(g_box[0] == 0 && g_box[1] == 0 && g_box[2] == im.w && g_box[3] == im.h, "dispatch", "handler got the box %d %d %d %d for a %dx%d picture", g_box[0], g_box[1], g_box[2], g_box[3], im.w, im.h);
      at_splines_free(s);
      at_bitmap_free(b);
    } else {
      // the built-in writer produces something of its own
      Image im(3, 2, 1);
      at_bitmap *b = to_bitmap(im);
      FitOpts fo;
      at_splines_type *s = at_splines_new(b, fo.o, nullptr, nullptr);
      std::string out = write_mem(key.c_str(), s, "n");
      REQUIRE(g_out == -1, "dispatch", "writing built-in '%s' reached handler %d", key.c_str(), g_out);
      REQUIRE(!out.empty(), "dispatch", "built-in '%s' wrote nothing", key.c_str());
      at_splines_free(s);
      at_bitmap_free(b);
    }
  }
  // the printed lists name every registered format exactly once
  for (int in = 0; in < 2; in++) {
    char *buf = nullptr;
    size_t len = 0;
    FILE *f = open_memstream(&buf, &len);
    in ? printInputFormatInfo(f) : printOutputFormatInfo(f);
    fclose(f);
    std::map<std::string, int> seen;
    size_t p = 0;
    std::string text(buf, len);
    while (p < text.size()) {
      size_t e = text.find('\n', p);
      std::string line = text.substr(p, e - p);
      p = e == std::string::npos ? text.size() : e + 1;
      char w[100];
      if (sscanf(line.c_str(), " %99s", w) == 1) seen[w]++;
    }
    auto &model = in ? mi : mo;
    for (auto &k : model)
      if (k.first.find(' ') == std::string::npos) REQUIRE(seen[k.first] == 1, "list", "format '%s' is listed %d times", k.first.c_str(), seen[k.first]);
    free(buf);
  }
  c.note(log);
  c.count("lookups that find a handler", hits);
  c.count("lookups that find nothing", misses);
  if (hits && misses) c.nontrivial(eng::hash_str(log));
}
static eng::Reg reg_r07({"R07", "sequences of registrations and lookups by name and by suffix over built-in, new, near-miss and odd suffixes in mixed case; non-trivial: at least one lookup that must succeed and one that must fail; distinct by operation sequence", r07, 40000, 400000, 20, {}});
