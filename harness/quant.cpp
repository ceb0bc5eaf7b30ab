#include "quant.h"
#include <cstring>
#include <set>
#include <sstream>

namespace {
// ------------------------------------------------------------ text helpers
struct Words {
  const std::string &s;
  size_t i;
  explicit Words(const std::string &t, size_t at = 0) : s(t), i(at) {}
  bool next(std::string &w) {
    while (i < s.size() && std::isspace((unsigned char)s[i])) i++;
    if (i >= s.size()) return false;
    size_t b = i;
    while (i < s.size() && !std::isspace((unsigned char)s[i])) i++;
    w = s.substr(b, i - b);
    return true;
  }
};
double number(const std::string &w, const char *what) {
  char *e;
  double d = strtod(w.c_str(), &e);
  if (w.empty() || *e || !std::isfinite(d)) bad_syntax("%s: \"%s\" is not a number", what, w.substr(0, 60).c_str());
  return d;
}
long integer(const std::string &w, const char *what) {
  char *e;
  errno = 0;
  long d = strtol(w.c_str(), &e, 10);
  if (w.empty() || *e || errno) bad_syntax("%s: \"%s\" is not a whole number", what, w.substr(0, 60).c_str());
  return d;
}
std::vector<std::string> lines_of(const std::string &f) {
  std::vector<std::string> l;
  size_t i = 0;
  while (i < f.size()) {
    size_t e = f.find('\n', i);
    if (e == std::string::npos) bad_syntax("last line is not ended");
    l.push_back(f.substr(i, e - i));
    i = e + 1;
  }
  return l;
}
// ------------------------------------------------------------ binary helpers
struct Bin {
  const std::string &s;
  size_t i = 0;
  bool big;
  Bin(const std::string &t, bool b) : s(t), big(b) {}
  size_t left() const { return s.size() - i; }
  uint32_t u(int n) {
    if (left() < (size_t)n) bad_syntax("file ends within a value at byte %zu", i);
    uint32_t v = 0;
    for (int k = 0; k < n; k++) v |= (uint32_t)(uint8_t)s[i + k] << 8 * (big ? n - 1 - k : k);
    i += n;
    return v;
  }
  int16_t s16() { return (int16_t)u(2); }
  int32_t s32() { return (int32_t)u(4); }
  std::string bytes(size_t n) {
    if (left() < n) bad_syntax("file ends within %zu bytes at byte %zu", n, i);
    std::string r = s.substr(i, n);
    i += n;
    return r;
  }
};
}  // namespace

// ------------------------------------------------------------ FIG
Polys read_fig(const std::string &f) {
  Polys d;
  auto l = lines_of(f);
  if (l.size() < 9) bad_syntax("FIG header is short");
  if (l[0].compare(0, 8, "#FIG 3.2")) bad_syntax("FIG starts with \"%s\"", l[0].c_str());
  if (l[1] != "Landscape" && l[1] != "Portrait") bad_syntax("orientation \"%s\"", l[1].c_str());
  if (l[2] != "Center" && l[2] != "Flush left") bad_syntax("justification \"%s\"", l[2].c_str());
  if (l[3] != "Metric" && l[3] != "Inches") bad_syntax("units \"%s\"", l[3].c_str());
  number(l[5], "magnification");
  if (l[6] != "Single" && l[6] != "Multiple") bad_syntax("pages \"%s\"", l[6].c_str());
  integer(l[7], "transparent colour");
  if (l[8] != "1200 2") bad_syntax("resolution \"%s\"", l[8].c_str());
  size_t at = 0;
  for (int k = 0; k < 9; k++) at += l[k].size() + 1;
  Words w(f, at);
  std::string t;
  std::map<int, std::vector<int>> cols{{0, {0, 0, 0}}, {1, {0, 0, 255}}, {2, {0, 255, 0}}, {3, {0, 255, 255}}, {4, {255, 0, 0}}, {5, {255, 0, 255}}, {6, {255, 255, 0}}, {7, {255, 255, 255}}};
  auto num = [&](const char *what) {
    if (!w.next(t)) bad_syntax("FIG ends within %s", what);
    return integer(t, what);
  };
  auto real = [&](const char *what) {
    if (!w.next(t)) bad_syntax("FIG ends within %s", what);
    return number(t, what);
  };
  while (w.next(t)) {
    long kind = integer(t, "object");
    if (kind == 0) {
      if (!d.p.empty()) bad_syntax("a colour after the first object");
      long n = num("colour number");
      if (n < 32 || n > 543) bad_syntax("user colour %ld", n);
      if (!w.next(t) || t.size() != 7 || t[0] != '#' || t.find_first_not_of("0123456789abcdefABCDEF", 1) != std::string::npos) bad_syntax("colour \"%s\"", t.c_str());
      if (cols.count((int)n)) bad_syntax("colour %ld is defined twice", n);
      unsigned v = (unsigned)strtoul(t.c_str() + 1, nullptr, 16);
      cols[(int)n] = {(int)(v >> 16), (int)(v >> 8 & 255), (int)(v & 255)};
      continue;
    }
    if (kind != 2 && kind != 3) bad_syntax("object of kind %ld", kind);
    long sub = num("sub type"), style = num("line style"), thick = num("thickness"), pen = num("pen colour"), fill = num("fill colour"), depth = num("depth");
    num("pen style");
    long area = num("area fill");
    real("style value");
    if (kind == 2) num("join style");
    num("cap style");
    if (kind == 2) num("radius");
    long fwd = num("arrow"), bwd = num("arrow"), n = num("point count");
    if (style != 0 || fwd || bwd) bad_syntax("a dashed line or arrow");
    if (depth < 0 || depth > 999) bad_syntax("depth %ld", depth);
    if (kind == 2 ? sub != 1 && sub != 3 : sub != 4 && sub != 5) bad_syntax("sub type %ld of object %ld", sub, kind);
    if (n < 1 || n > 1000000) bad_syntax("%ld points", n);
    Poly p;
    p.fill = area >= 0;
    if (area != -1 && area != 20) bad_syntax("area fill %ld", area);
    p.closed = sub == 3 || sub == 5;
    p.depth = (int)depth;
    p.back = kind == 2 && sub == 1 && n <= 2;
    if (p.back) p.has_fill = false;
    if (!p.fill && thick < 1) bad_syntax("an unfilled object without outline");
    for (long c : {pen, fill})
      if (!cols.count((int)c)) bad_syntax("colour %ld is not defined", c);
    auto &c = cols[(int)(p.fill ? fill : pen)];
    p.has_rgb = true;
    for (int k = 0; k < 3; k++) p.rgb[k] = c[k];
    for (long k = 0; k < n; k++) {
      double x = (double)num("x"), y = (double)num("y");
      p.v.push_back({(x - 300) / 15, (y - 300) / 15});
    }
    if (kind == 3)
      for (long k = 0; k < n; k++) {
        double s = real("weight");
        // other weights let the curve pass beside its points
        if (s != 0 && s != -1) bad_syntax("control weight %g", s);
        if ((k == 0 || k == n - 1) && s != 0 && sub == 4) bad_syntax("control weight %g at an end", s);
      }
    if (kind == 2 && sub == 3 && (p.v[0].x != p.v.back().x || p.v[0].y != p.v.back().y)) bad_syntax("a polygon does not end where it starts");
    d.p.push_back(p);
  }
  return d;
}

// ------------------------------------------------------------ MIF
namespace {
struct Mif {
  std::string tag, arg;
  std::vector<Mif> in;
  const Mif *child(const char *t) const {
    for (const Mif &m : in)
      if (m.tag == t) return &m;
    return nullptr;
  }
  const Mif &need(const char *t) const {
    const Mif *m = child(t);
    if (!m) bad_syntax("%s without %s", tag.c_str(), t);
    return *m;
  }
};
void mif_parse(const std::string &f, size_t &i, Mif &m, int depth) {
  // at '<'
  i++;
  while (i < f.size() && std::isalnum((unsigned char)f[i])) m.tag += f[i++];
  if (m.tag.empty()) bad_syntax("MIF statement without a name at byte %zu", i);
  for (;;) {
    if (i >= f.size()) bad_syntax("MIF ends within %s", m.tag.c_str());
    char ch = f[i];
    if (ch == '>') {
      i++;
      while (!m.arg.empty() && std::isspace((unsigned char)m.arg.back())) m.arg.pop_back();
      return;
    }
    if (ch == '<') {
      if (depth > 5) bad_syntax("MIF nested too deeply");
      m.in.emplace_back();
      mif_parse(f, i, m.in.back(), depth + 1);
    } else if (ch == '`') {
      size_t e = f.find('\'', i);
      if (e == std::string::npos) bad_syntax("MIF string without end");
      m.arg += f.substr(i + 1, e - i - 1);
      i = e + 1;
    } else {
      if (!std::isspace((unsigned char)ch) || !m.arg.empty()) m.arg += ch == '\n' ? ' ' : ch;
      i++;
    }
  }
}
}  // namespace
Polys read_mif(const std::string &f) {
  Polys d;
  std::vector<Mif> top;
  for (size_t i = 0; i < f.size();) {
    if (std::isspace((unsigned char)f[i])) i++;
    else if (f[i] == '#') {
      while (i < f.size() && f[i] != '\n') i++;
    } else if (f[i] == '<') {
      top.emplace_back();
      mif_parse(f, i, top.back(), 0);
    } else
      bad_syntax("'%c' outside any MIF statement", f[i]);
  }
  if (top.size() != 4 || top[0].tag != "MIFFile" || top[1].tag != "Units" || top[2].tag != "ColorCatalog" || top[3].tag != "Frame") bad_syntax("MIF of %zu statements", top.size());
  if (top[1].arg != "Upt") bad_syntax("unit %s", top[1].arg.c_str());
  std::map<std::string, std::vector<int>> cols;
  for (const Mif &m : top[2].in) {
    if (m.tag != "Color") bad_syntax("%s in the colour catalogue", m.tag.c_str());
    double k = number(m.need("ColorBlack").arg, "black");
    std::vector<int> v;
    for (const char *t : {"ColorCyan", "ColorMagenta", "ColorYellow"}) {
      double x = number(m.need(t).arg, t) + k;
      if (x < 0 || x > 100.01 || k < 0) bad_syntax("%s %g", t, x);
      v.push_back((int)std::lround(255 - x * 2.55));
    }
    std::string tag = m.need("ColorTag").arg;
    if (cols.count(tag)) bad_syntax("colour %s is defined twice", tag.c_str());
    cols[tag] = v;
  }
  const Mif &fr = top[3];
  {
    std::string a = fr.need("BRect").arg;
    double q[4];
    if (sscanf(a.c_str(), "%lf pt %lf pt %lf pt %lf pt", q, q + 1, q + 2, q + 3) != 4) bad_syntax("BRect %s", a.c_str());
    d.has_size = true;
    d.x0 = q[0], d.y0 = q[1], d.x1 = q[2], d.y1 = q[3];
    d.size_res = .0501;
  }
  for (const Mif &m : fr.in) {
    if (m.tag != "Polygon" && m.tag != "PolyLine") continue;
    Poly p;
    p.closed = m.tag == "Polygon";
    p.fill = integer(m.need("Fill").arg, "Fill") == 0;
    bool pen = integer(m.need("Pen").arg, "Pen") == 0;
    if (p.fill == pen) bad_syntax("fill %s and pen %s", m.need("Fill").arg.c_str(), m.need("Pen").arg.c_str());
    std::string tag = m.need("ObColor").arg;
    if (!cols.count(tag)) bad_syntax("colour %s is not in the catalogue", tag.c_str());
    p.has_rgb = true;
    for (int k = 0; k < 3; k++) p.rgb[k] = cols[tag][k];
    int r, g, b;
    char extra;
    if (sscanf(tag.c_str(), "R%3dG%3dB%3d%c", &r, &g, &b, &extra) == 3) {  // the name tells the colour exactly
      if (std::abs(r - p.rgb[0]) > 6 || std::abs(g - p.rgb[1]) > 6 || std::abs(b - p.rgb[2]) > 6) bad_syntax("colour %s is defined as (%d, %d, %d)", tag.c_str(), p.rgb[0], p.rgb[1], p.rgb[2]);
      p.rgb[0] = r, p.rgb[1] = g, p.rgb[2] = b;
    }
    for (const Mif &q : m.in)
      if (q.tag == "Point") {
        std::string a = q.arg;
        double x, y;
        char rest;
        if (sscanf(a.c_str(), "%lf %lf %c", &x, &y, &rest) != 2) bad_syntax("point \"%s\"", a.c_str());
        p.v.push_back({x, y});
      }
    if (m.need("Smoothed").arg != "No") bad_syntax("smoothed points");
    if (p.v.empty()) bad_syntax("object without points");
    d.p.push_back(p);
  }
  return d;
}

// ------------------------------------------------------------ DXF
Polys read_dxf(const std::string &f) {
  Polys d;
  auto l = lines_of(f);
  if (l.size() % 2) bad_syntax("odd number of lines");
  std::string section, table, var, cur;
  std::map<std::string, int> layers;
  std::string layer_name;
  bool in_poly = false, eof = false;
  auto trim = [](std::string s) {
    size_t b = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t");
    return b == std::string::npos ? std::string() : s.substr(b, e - b + 1);
  };
  bool want_section = false, want_table = false, got_x = false, got_y = false, flag66 = false;
  double x = 0, y = 0;
  std::string vlayer;
  std::vector<std::string> plainlayers;
  auto finish = [&] {
    if (cur == "VERTEX") {
      if (!got_x || !got_y) bad_syntax("vertex without coordinates");
      if (vlayer != layer_name) bad_syntax("a vertex on layer %s in a polyline on layer %s", vlayer.c_str(), layer_name.c_str());
      d.p.back().v.push_back({x, y});
    } else if (cur == "POLYLINE") {
      if (!flag66) bad_syntax("polyline without vertices-follow flag");
      layer_name = vlayer;
      if (!layers.count(layer_name)) bad_syntax("layer %s is not in the table", layer_name.c_str());
      Poly p;
      p.has_fill = false;
      p.id = layers[layer_name];
      d.p.push_back(p);
      in_poly = true;
    } else if (cur == "SEQEND") {
      if (!layers.count(vlayer)) bad_syntax("layer %s is not in the table", vlayer.c_str());
      in_poly = false;
    } else if (cur == "LAYER") {
      if (vlayer.empty()) bad_syntax("layer without a name");
    }
    cur.clear();
    got_x = got_y = flag66 = false;
    vlayer.clear();
  };
  for (size_t i = 0; i + 1 < l.size(); i += 2) {
    if (eof) bad_syntax("text after EOF");
    long code = integer(trim(l[i]), "group code");
    std::string v = trim(l[i + 1]);
    if (code == 0) {
      finish();
      if (want_section || want_table) bad_syntax("section or table without a name");
      if (v == "SECTION") {
        if (!section.empty()) bad_syntax("section in a section");
        want_section = true;
      } else if (v == "ENDSEC") {
        if (section.empty() || !table.empty() || in_poly) bad_syntax("ENDSEC out of place");
        section.clear();
      } else if (v == "EOF") {
        if (!section.empty()) bad_syntax("EOF in a section");
        eof = true;
      } else if (v == "TABLE") {
        if (section != "TABLES") bad_syntax("TABLE outside TABLES");
        want_table = true;
      } else if (v == "ENDTAB") {
        if (table.empty()) bad_syntax("ENDTAB outside a table");
        table.clear();
      } else if (v == "LAYER") {
        if (table != "LAYER") bad_syntax("LAYER outside its table");
        cur = v;
      } else if (v == "POLYLINE") {
        if (section != "ENTITIES" || in_poly) bad_syntax("POLYLINE out of place");
        cur = v;
      } else if (v == "VERTEX" || v == "SEQEND") {
        if (!in_poly) bad_syntax("%s outside a polyline", v.c_str());
        if (v == "SEQEND" && d.p.back().v.empty()) bad_syntax("polyline without vertices");
        cur = v;
      } else
        bad_syntax("entity %s", v.c_str());
    } else if (code == 2) {
      if (want_section) section = v, want_section = false;
      else if (want_table) table = v, want_table = false;
      else if (cur == "LAYER") {
        if (layers.count(v)) bad_syntax("layer %s is defined twice", v.c_str());
        layers[v] = 0, vlayer = v;
      }
    } else if (code == 62 && cur == "LAYER") {
      long n = integer(v, "layer colour");
      if (n < 1 || n > 255) bad_syntax("layer colour %ld", n);
      layers[vlayer] = (int)n;
    } else if (code == 9) var = v;
    else if (code == 8) vlayer = v;
    else if (code == 66) flag66 = v == "1";
    else if (code == 10 || code == 20) {
      double q = number(v, "coordinate");
      if (section == "HEADER") {
        d.has_size = true;
        double &t = var == "$EXTMIN" ? (code == 10 ? d.x0 : d.y0) : (code == 10 ? d.x1 : d.y1);
        if (var == "$EXTMIN" || var == "$EXTMAX") t = q;
      } else if (code == 10) x = q, got_x = true;
      else y = q, got_y = true;
    }
  }
  if (!eof) bad_syntax("no EOF");
  return d;
}

// ------------------------------------------------------------ HPGL
Polys read_plt(const std::string &f) {
  Polys d;
  int pen = -1;
  bool first = true, drawing = false;
  std::string last;
  size_t i = 0;
  double px = 0, py = 0;
  while (i < f.size()) {
    size_t e = f.find(';', i);
    if (e == std::string::npos) bad_syntax("HPGL instruction without end");
    std::string t = f.substr(i, e - i);
    i = e + 1;
    if (t.size() < 2) bad_syntax("HPGL instruction \"%s\"", t.c_str());
    std::string op = t.substr(0, 2), rest = t.substr(2);
    for (char &ch : rest)
      if (ch == ',') ch = ' ';
    std::vector<long> a;
    Words w(rest);
    std::string q;
    while (w.next(q)) a.push_back(integer(q, op.c_str()));
    if (first && op != "IN") bad_syntax("HPGL starts with %s", op.c_str());
    first = false;
    if (op == "IN") {
      if (!a.empty()) bad_syntax("IN with numbers");
    } else if (op == "IP") {
      if (a.size() != 4) bad_syntax("IP of %zu numbers", a.size());
      d.extra["ipx"] = (double)(a[2] - a[0]), d.extra["ipy"] = (double)(a[3] - a[1]);
    } else if (op == "SC") {
      if (a.size() != 4) bad_syntax("SC of %zu numbers", a.size());
      d.has_size = true;
      d.x0 = (double)a[0], d.x1 = (double)a[1], d.y0 = (double)a[2], d.y1 = (double)a[3];
    } else if (op == "SP") {
      if (a.size() != 1 || a[0] < 0 || a[0] > 8) bad_syntax("pen %s", rest.c_str());
      pen = (int)a[0];
    } else if (op == "PU" || op == "PD") {
      if (a.size() != 2) bad_syntax("%s of %zu numbers", op.c_str(), a.size());
      if (op == "PD") {
        if (pen < 1) bad_syntax("drawing without a pen");
        if (!drawing) {
          Poly p;
          p.has_fill = false;
          p.id = pen;
          p.v.push_back({px, py});
          d.p.push_back(p);
          drawing = true;
        }
        d.p.back().v.push_back({(double)a[0], (double)a[1]});
      } else
        drawing = false;
      px = (double)a[0], py = (double)a[1];
    } else
      bad_syntax("HPGL instruction \"%s\"", t.substr(0, 40).c_str());
    last = op;
  }
  if (!d.has_size) bad_syntax("no scale");
  if (last == "PD") bad_syntax("the pen is left down");
  return d;
}

// ------------------------------------------------------------ UGS
Polys read_ugs(const std::string &f) {
  Polys d;
  Words w(f);
  std::string t;
  auto word = [&](const char *want) {
    if (!w.next(t)) bad_syntax("UGS ends before %s", want);
    if (t != want) bad_syntax("\"%s\" instead of %s", t.c_str(), want);
  };
  auto num = [&](const char *what) {
    if (!w.next(t)) bad_syntax("UGS ends within %s", what);
    return integer(t, what);
  };
  word("symbol");
  if (!w.next(t)) bad_syntax("no code");
  d.extra["code"] = (double)strtol(t.c_str(), nullptr, 16);
  word("design-size");
  d.extra["design-size"] = (double)num("design size");
  word("advance-width");
  d.extra["advance-width"] = (double)num("advance width");
  word("contour");
  for (;;) {
    if (!w.next(t)) bad_syntax("contour without end");
    if (t == "end") {
      word("contour");
      break;
    }
    if (t != "path") bad_syntax("\"%s\" in a contour", t.c_str());
    Poly p;
    p.has_fill = false;
    std::vector<P2> off;
    for (;;) {
      if (!w.next(t)) bad_syntax("path without end");
      if (t == "end") {
        word("path");
        break;
      }
      bool on = t == "dot-on";
      if (!on && t != "dot-off") bad_syntax("\"%s\" in a path", t.c_str());
      double x = (double)num("x"), y = (double)num("y");
      if (on) {
        p.v.push_back({x, y});
        p.off.push_back(off);
        off.clear();
      } else {
        if (p.v.empty() || !off.empty()) bad_syntax("a dot-off out of place");
        off.push_back({x, y});
      }
    }
    if (!off.empty() || p.v.empty()) bad_syntax("path ends within a curve");
    d.p.push_back(p);
  }
  for (const char *k : {"left-bearing", "right-bearing", "ascend", "descend"}) {
    word(k);
    d.extra[k] = (double)num(k);
  }
  word("end");
  word("symbol");
  if (w.next(t)) bad_syntax("\"%s\" after the symbol", t.c_str());
  return d;
}

// ------------------------------------------------------------ ILDA
Polys read_ild(const std::string &f) {
  Polys d;
  Bin b(f, true);
  std::vector<std::vector<int>> truecol;
  bool pending = false;
  int frames = 0, stated = -1;
  for (;;) {
    if (b.bytes(4) != "ILDA") bad_syntax("no ILDA signature at byte %zu", b.i - 4);
    uint32_t kind = b.u(4);
    if (kind == 3) {
      if (pending) bad_syntax("two true colour tables in a row");
      uint32_t len = b.u(4), n = b.u(4);
      if (len != n * 3 + 4) bad_syntax("true colour table of %u points in %u bytes", n, len);
      std::string c = b.bytes((size_t)n * 3);
      truecol.clear();
      for (uint32_t k = 0; k < n; k++) truecol.push_back({(uint8_t)c[3 * k], (uint8_t)c[3 * k + 1], (uint8_t)c[3 * k + 2]});
      pending = true;
      continue;
    }
    if (kind != 1) bad_syntax("ILDA section of kind %u", kind);
    b.bytes(16);
    uint32_t n = b.u(2), no = b.u(2), total = b.u(2);
    b.u(2);
    if (n == 0) {
      if (pending) bad_syntax("true colours without a frame");
      break;
    }
    if ((int)no != frames) bad_syntax("frame number %u after %d frames", no, frames);
    frames++;
    if (stated >= 0 && (int)total != stated) bad_syntax("%u frames stated after %d", total, stated);
    stated = (int)total;
    if (!pending || truecol.size() != n) bad_syntax("%zu true colours for a frame of %u points", pending ? truecol.size() : 0, n);
    pending = false;
    P2 at{0, 0};
    bool on = false;
    for (uint32_t k = 0; k < n; k++) {
      double x = b.s16(), y = b.s16();
      uint32_t st = b.u(1), idx = b.u(1);
      if (st & 0x3f) bad_syntax("status byte %02x", st);
      if (((st & 0x80) != 0) != (k + 1 == n)) bad_syntax("last-point bit on point %u of %u", k, n);
      bool blank = st & 0x40;
      auto &c = truecol[k];
      if (blank) {
        if (c[0] || c[1] || c[2]) bad_syntax("a blanked point with colour (%d, %d, %d)", c[0], c[1], c[2]);
        on = false;
      } else {
        bool same = on || (!d.p.empty() && std::hypot(x - at.x, y - at.y) <= 3);
        if (same && !d.p.empty() && std::equal(c.begin(), c.end(), d.p.back().rgb)) {
          d.p.back().v.push_back({x, y});
        } else {
          Poly p;
          p.has_fill = false;
          p.has_rgb = true;
          for (int q = 0; q < 3; q++) p.rgb[q] = c[q];
          // from the previous point the beam draws already
          if (on && std::hypot(x - at.x, y - at.y) > 3) bad_syntax("point %u: the colour changes without a blanked point", k);
          p.v.push_back({x, y});
          d.p.push_back(p);
        }
        if (d.p.back().id >= 0 && d.p.back().id != (int)idx) bad_syntax("one colour with two palette indices");
        d.p.back().id = (int)idx;
        on = true;
        at = {x, y};
      }
    }
  }
  if (b.left()) bad_syntax("%zu bytes after the end", b.left());
  if (stated >= 0 && stated != frames) bad_syntax("%d frames stated, %d written", stated, frames);
  if (!frames) bad_syntax("no frame");
  return d;
}

// ------------------------------------------------------------ EMF
Drawing read_emf(const std::string &f) {
  Drawing d;
  Bin b(f, false);
  uint32_t records = 0, nrec = 0, nhand = 0, fsize = 0;
  bool eof = false, in_path = false, path_done = false;
  struct Obj {
    bool pen;
    int rgb[3];
  };
  std::map<uint32_t, Obj> objs;
  uint32_t pen = 0x80000007, brush = 0x80000000;
  Paint p;
  while (b.left()) {
    if (eof) bad_syntax("%zu bytes after the end record", b.left());
    size_t start = b.i;
    uint32_t type = b.u(4), size = b.u(4);
    if (size < 8 || size % 4 || size > f.size() - start) bad_syntax("record %u of type %u has size %u", records, type, size);
    size_t end = start + size;
    if (records == 0 && type != 1) bad_syntax("no header record");
    if (records && type == 1) bad_syntax("a second header");
    auto exact = [&](uint32_t n) {
      if (size != n) bad_syntax("record of type %u has %u bytes instead of %u", type, size, n);
    };
    auto color = [&](int *rgb) {
      uint32_t c = b.u(4);
      rgb[0] = c & 255, rgb[1] = c >> 8 & 255, rgb[2] = c >> 16 & 255;
      if (c >> 24) bad_syntax("colour %08x", c);
    };
    switch (type) {
      case 1: {
        if (size < 100) bad_syntax("header of %u bytes", size);
        d.has_size = true;
        d.x0 = b.s32(), d.y0 = b.s32(), d.x1 = b.s32(), d.y1 = b.s32();
        double fx0 = b.s32(), fy0 = b.s32(), fx1 = b.s32(), fy1 = b.s32();
        if (b.u(4) != 0x464D4520) bad_syntax("no EMF signature");
        if (b.u(4) != 0x10000) bad_syntax("version");
        fsize = b.u(4), nrec = b.u(4), nhand = b.u(2);
        b.u(2);
        uint32_t dl = b.u(4), doff = b.u(4);
        if (b.u(4) != 0) bad_syntax("palette entries");
        double dw = b.s32(), dh = b.s32(), mw = b.s32(), mh = b.s32();
        if (dl && (doff < 88 || doff + 2 * (uint64_t)dl > size)) bad_syntax("description of %u characters at %u in a header of %u bytes", dl, doff, size);
        if (dl) {
          auto ch = [&](uint32_t k) { return (uint8_t)f[start + doff + 2 * k] | (uint8_t)f[start + doff + 2 * k + 1] << 8; };
          if (dl < 2 || ch(dl - 1) || ch(dl - 2)) bad_syntax("description without its two final zeros");
        }
        // the frame is the picture in hundredths of a millimetre
        double ex = d.x1 * mw * 100 / dw, ey = d.y1 * mh * 100 / dh;
        if (fx0 || fy0 || std::fabs(fx1 - ex) > 1 || std::fabs(fy1 - ey) > 1) bad_syntax("frame (%g, %g)..(%g, %g) of a picture of %gx%g", fx0, fy0, fx1, fy1, d.x1, d.y1);
        break;
      }
      case 14: {
        exact(20);
        if (b.u(4) != 0) bad_syntax("palette in the end record");
        b.u(4);
        if (b.u(4) != 20) bad_syntax("end record states another size");
        eof = true;
        break;
      }
      case 19:
        exact(12);
        if (b.u(4) != 1) bad_syntax("fill mode");
        break;
      case 38: {
        exact(28);
        uint32_t h = b.u(4);
        Obj o;
        o.pen = true;
        if (b.u(4) != 0) bad_syntax("pen style");
        b.u(4), b.u(4);
        color(o.rgb);
        if (h < 1 || h >= nhand) bad_syntax("handle %u of %u", h, nhand);
        if (objs.count(h)) bad_syntax("handle %u is in use", h);
        objs[h] = o;
        break;
      }
      case 39: {
        exact(24);
        uint32_t h = b.u(4);
        Obj o;
        o.pen = false;
        if (b.u(4) != 0) bad_syntax("brush style");
        color(o.rgb);
        b.u(4);
        if (h < 1 || h >= nhand) bad_syntax("handle %u of %u", h, nhand);
        if (objs.count(h)) bad_syntax("handle %u is in use", h);
        objs[h] = o;
        break;
      }
      case 37: {
        exact(12);
        uint32_t h = b.u(4);
        if (h & 0x80000000) {
          if (h == 0x80000008) pen = h;
          else bad_syntax("stock object %08x", h);
        } else {
          if (!objs.count(h)) bad_syntax("handle %u selected without an object", h);
          (objs[h].pen ? pen : brush) = h;
        }
        break;
      }
      case 40: {
        exact(12);
        uint32_t h = b.u(4);
        if (!objs.count(h)) bad_syntax("handle %u deleted without an object", h);
        objs.erase(h);
        break;
      }
      case 59:
        exact(8);
        if (in_path || path_done) bad_syntax("path in a path");
        in_path = true;
        p = Paint();
        break;
      case 60:
        exact(8);
        if (!in_path) bad_syntax("end of no path");
        in_path = false;
        path_done = true;
        break;
      case 62:
      case 64: {
        exact(24);
        if (!path_done || p.subs.empty()) bad_syntax("painting without a path");
        path_done = false;
        p.fill = type == 62;
        uint32_t h = p.fill ? brush : pen;
        if (!objs.count(h)) bad_syntax("painting with object %08x", h);
        for (int k = 0; k < 3; k++) p.rgb[k] = objs[h].rgb[k] / 255.;
        d.paints.push_back(p);
        break;
      }
      case 27:
      case 54: {
        exact(16);
        double x = b.s32(), y = b.s32();
        if (!in_path) bad_syntax("drawing outside a path");
        if (type == 27) {
          p.subs.push_back({});
          p.subs.back().start = {x, y};
        } else {
          if (p.subs.empty()) bad_syntax("line from nowhere");
          p.subs.back().segs.push_back({false, {0, 0}, {0, 0}, {x, y}});
        }
        break;
      }
      case 88: {
        for (int k = 0; k < 4; k++) b.u(4);
        uint32_t n = b.u(4);
        if (n % 3 || !n) bad_syntax("curves of %u points", n);
        exact(28 + 4 * n);
        if (!in_path || p.subs.empty()) bad_syntax("curve from nowhere");
        for (uint32_t k = 0; k < n / 3; k++) {
          Piece q;
          q.cubic = true;
          for (P2 *t : {&q.a, &q.b, &q.e}) {
            t->x = b.s16();
            t->y = b.s16();
          }
          p.subs.back().segs.push_back(q);
        }
        break;
      }
      default:
        bad_syntax("record of type %u", type);
    }
    if (b.i > end) bad_syntax("record %u of type %u is too short", records, type);
    b.i = end;
    records++;
  }
  if (!eof) bad_syntax("no end record");
  if (in_path || path_done) bad_syntax("unfinished path");
  if (records != nrec) bad_syntax("%u records stated, %u written", nrec, records);
  if (fsize != f.size()) bad_syntax("%u bytes stated, %zu written", fsize, f.size());
  return d;
}

// ------------------------------------------------------------ CGM
Drawing read_cgm(const std::string &f, std::string *name) {
  Drawing d;
  Bin b(f, true);
  int state = 0;  // 0 before, 1 metafile, 2 picture, 3 body, 4 picture ended, 5 ended
  bool figure = false, compound = false, have_color = false, solid = false, first = true;
  int rgb[3] = {0, 0, 0};
  Paint p;
  auto text = [&](const std::string &s) {
    if (s.empty()) bad_syntax("empty string parameter");
    size_t n = (uint8_t)s[0], o = 1;
    if (n == 255) {
      if (s.size() < 3) bad_syntax("short string parameter");
      n = ((uint8_t)s[1] << 8 | (uint8_t)s[2]) & 0x7fff, o = 3;
      if ((uint8_t)s[1] & 0x80) bad_syntax("string in parts");
    }
    if (s.size() != o + n) bad_syntax("string of %zu characters in %zu bytes", n, s.size());
    return s.substr(o);
  };
  while (b.left()) {
    if (state == 5) bad_syntax("%zu bytes after the end", b.left());
    uint32_t h = b.u(2), cls = h >> 12, id = h >> 5 & 127, len = h & 31;
    if (len == 31) {
      len = b.u(2);
      if (len & 0x8000) bad_syntax("parameters in parts");
    }
    std::string a = b.bytes(len);
    if (len % 2) {
      if (b.bytes(1)[0]) bad_syntax("padding is not zero");
    }
    auto s16 = [&](unsigned k) { return (double)(int16_t)((uint8_t)a[2 * k] << 8 | (uint8_t)a[2 * k + 1]); };
    auto exact = [&](uint32_t n) {
      if (len != n) bad_syntax("element %u/%u has %u bytes instead of %u", cls, id, len, n);
    };
    if (first && (cls != 0 || id != 1)) bad_syntax("starts with element %u/%u", cls, id);
    first = false;
    uint32_t e = cls << 8 | id;
    auto in_state = [&](int want) {
      if (state != want) bad_syntax("element %u/%u out of place", cls, id);
    };
    switch (e) {
      case 0x001: {
        in_state(0);
        std::string t = text(a);
        if (name) *name = t;
        state = 1;
        break;
      }
      case 0x101: in_state(1), exact(2); break;
      case 0x102: in_state(1), text(a); break;
      case 0x10b: {
        in_state(1);
        if (len < 2 || len != 2 + 4 * (unsigned)s16(0)) bad_syntax("element list of %u bytes", len);
        break;
      }
      case 0x003: in_state(1), text(a), state = 2; break;
      case 0x202:
        in_state(2), exact(2);
        if (s16(0) != 1) bad_syntax("colour mode");
        break;
      case 0x206:
        in_state(2), exact(8);
        d.has_size = true;
        d.x0 = s16(0), d.y0 = s16(1), d.x1 = s16(2), d.y1 = s16(3);
        break;
      case 0x004: in_state(2), exact(0), state = 3; break;
      case 0x504:
      case 0x517:
        in_state(3), exact(3);
        if (figure || compound) bad_syntax("colour within a figure");
        for (int k = 0; k < 3; k++) rgb[k] = (uint8_t)a[k];
        have_color = true;
        p.fill = e == 0x517;
        break;
      case 0x516:
        in_state(3), exact(2);
        solid = s16(0) == 1;
        break;
      case 0x51e: in_state(3), exact(2); break;
      case 0x008:
      case 0x00f:
        in_state(3), exact(0);
        if (figure || compound || !have_color) bad_syntax("figure out of place");
        if (e == 0x008 ? !p.fill : p.fill) bad_syntax("figure painted with another kind of colour");
        if (e == 0x008 && !solid) bad_syntax("figure without solid interior");
        (e == 0x008 ? figure : compound) = true;
        p.subs.clear();
        p.subs.push_back({});
        for (int k = 0; k < 3; k++) p.rgb[k] = rgb[k] / 255.;
        break;
      case 0x009:
      case 0x010:
        in_state(3), exact(0);
        if (e == 0x009 ? !figure : !compound) bad_syntax("end of no figure");
        if (p.subs[0].segs.empty()) bad_syntax("empty figure");
        p.subs[0].closed = e == 0x009;
        d.paints.push_back(p);
        figure = compound = false;
        break;
      case 0x401:
      case 0x41a: {
        in_state(3);
        if (!figure && !compound) bad_syntax("line outside a figure");
        Piece q;
        q.cubic = e == 0x41a;
        P2 st;
        if (q.cubic) {
          exact(18);
          if (s16(0) != 2 && s16(0) != 1) bad_syntax("curve kind");
          st = {s16(1), s16(2)}, q.a = {s16(3), s16(4)}, q.b = {s16(5), s16(6)}, q.e = {s16(7), s16(8)};
        } else {
          exact(8);
          st = {s16(0), s16(1)}, q.e = {s16(2), s16(3)};
        }
        Sub &u = p.subs[0];
        if (u.segs.empty()) u.start = st;
        else if (st.x != u.segs.back().e.x || st.y != u.segs.back().e.y) bad_syntax("a piece starts at (%g, %g) after (%g, %g)", st.x, st.y, u.segs.back().e.x, u.segs.back().e.y);
        u.segs.push_back(q);
        break;
      }
      case 0x005:
        in_state(3), exact(0), state = 4;
        if (figure || compound) bad_syntax("picture ends within a figure");
        break;
      case 0x002: in_state(4), exact(0), state = 5; break;
      default: bad_syntax("element %u/%u", cls, id);
    }
  }
  if (state != 5) bad_syntax("no end of metafile");
  if (!d.has_size) bad_syntax("no extent");
  return d;
}

// ------------------------------------------------------------ DR2D
Drawing read_dr2d(const std::string &f, double width, double height) {
  Drawing d;
  Bin b(f, true);
  if (b.bytes(4) != "FORM") bad_syntax("no FORM");
  uint32_t size = b.u(4);
  if (size + 8 != f.size()) bad_syntax("FORM of %u bytes in a file of %zu", size, f.size());
  if (b.bytes(4) != "DR2D") bad_syntax("no DR2D");
  std::vector<std::vector<int>> cmap;
  bool have_cmap = false, have_attr = false, have_box = false, have_head = false;
  std::set<std::string> seen;
  double box[4], scale = 1;
  Paint p;
  auto real = [](Bin &q) {
    uint32_t v = q.u(4);
    float x;
    memcpy(&x, &v, 4);
    if (!std::isfinite(x)) bad_syntax("a coordinate that is no number");
    return (double)x;
  };
  while (b.left()) {
    std::string id = b.bytes(4);
    uint32_t n = b.u(4);
    std::string body = b.bytes(n);
    if (n % 2 && b.bytes(1)[0]) bad_syntax("padding is not zero");
    Bin q(body, true);
    auto exact = [&](uint32_t want) {
      if (n != want) bad_syntax("%s of %u bytes instead of %u", id.c_str(), n, want);
    };
    if (id == "DRHD") {
      exact(16);
      double x0 = real(q), y0 = real(q), x1 = real(q), y1 = real(q);
      if (x0 || y0 || x1 <= 0 || y1 <= 0) bad_syntax("drawing (%g, %g)..(%g, %g)", x0, y0, x1, y1);
      scale = x1 > y1 ? x1 / width : y1 / height;
      d.has_size = true;
      d.x1 = x1 / scale, d.y1 = y1 / scale;
      d.extra["res"] = 1.01 / 1024 / scale;
      d.extra["rel"] = 1.5 / 1024 / std::max(x1, y1);
      have_head = true;
    } else if (id == "PPRF") {
      size_t i = 0;
      std::vector<std::string> t;
      while (i < body.size()) {
        size_t e = body.find('\0', i);
        if (e == std::string::npos) bad_syntax("PPRF string without end");
        t.push_back(body.substr(i, e - i));
        i = e + 1;
      }
      if (t.size() != 4) bad_syntax("PPRF of %zu strings", t.size());
    } else if (id == "LAYR") exact(20);
    else if (id == "DASH") {
      if (n < 4) bad_syntax("DASH of %u bytes", n);
      q.u(2);
      uint32_t k = q.u(2);
      exact(4 + 4 * k);
    } else if (id == "CMAP") {
      if (n % 3 || have_cmap) bad_syntax("CMAP of %u bytes", n);
      have_cmap = true;
      for (uint32_t k = 0; k < n / 3; k++) cmap.push_back({(int)q.u(1), (int)q.u(1), (int)q.u(1)});
    } else if (id == "BBOX") {
      exact(16);
      for (double &v : box) v = real(q);
      have_box = true;
    } else if (id == "ATTR") {
      exact(14);
      uint32_t ft = q.u(1);
      q.u(1), q.u(1), q.u(1);
      uint32_t edge = q.u(2), fillv = q.u(2);
      if (ft > 1) bad_syntax("fill type %u", ft);
      p = Paint();
      p.fill = ft == 1;
      uint32_t k = p.fill ? fillv : edge;
      if (k >= cmap.size()) bad_syntax("colour %u of %zu", k, cmap.size());
      for (int c = 0; c < 3; c++) p.rgb[c] = cmap[k][c] / 255.;
      have_attr = true;
    } else if (id == "CPLY" || id == "OPLY") {
      if (!have_attr || !have_box || !have_head) bad_syntax("%s before its attributes", id.c_str());
      uint32_t k = q.u(2);
      exact(2 + 8 * k);
      Sub u;
      bool started = false;
      double lo[2] = {1e30, 1e30}, hi[2] = {-1e30, -1e30};
      auto grow = [&](P2 t) {
        lo[0] = std::min(lo[0], t.x), lo[1] = std::min(lo[1], t.y), hi[0] = std::max(hi[0], t.x), hi[1] = std::max(hi[1], t.y);
      };
      auto pt = [&] {
        double x = real(q), y = real(q);
        return P2{x / scale, y / scale};
      };
      auto ends = [&](P2 t) { grow({t.x * scale, t.y * scale}); };
      for (uint32_t i = 0; i < k;) {
        Bin peek = q;
        if (peek.u(4) == 0xFFFFFFFFu) {
          q.u(4);
          uint32_t flag = q.u(4);
          if (flag != 1) bad_syntax("indicator %u", flag);
          if (i + 5 > k) bad_syntax("curve cut short");
          P2 st = pt();
          Piece e;
          e.cubic = true;
          e.a = pt(), e.b = pt(), e.e = pt();
          P2 last = u.segs.empty() ? u.start : u.segs.back().e;
          if (!started) u.start = st, started = true;
          else if (std::fabs(st.x - last.x) > 1e-9 + 1e-6 * std::fabs(last.x) || std::fabs(st.y - last.y) > 1e-9 + 1e-6 * std::fabs(last.y)) bad_syntax("a curve starts at (%g, %g) after (%g, %g)", st.x, st.y, last.x, last.y);
          u.segs.push_back(e);
          ends(st), ends(e.e);
          i += 5;
        } else {
          P2 t = pt();
          if (!started) u.start = t, started = true;
          else u.segs.push_back({false, {0, 0}, {0, 0}, t});
          ends(t);
          i++;
        }
      }
      if (!started) bad_syntax("polygon without points");
      u.closed = id == "CPLY";
      double e = 2.1 / 1024;
      if (std::fabs(box[0] - lo[0]) > e || std::fabs(box[1] - lo[1]) > e || std::fabs(box[2] - hi[0]) > e || std::fabs(box[3] - hi[1]) > e) bad_syntax("box (%g, %g)..(%g, %g) around points (%g, %g)..(%g, %g)", box[0], box[1], box[2], box[3], lo[0], lo[1], hi[0], hi[1]);
      p.subs.clear();
      p.subs.push_back(u);
      d.paints.push_back(p);
      have_attr = have_box = false;
    } else
      bad_syntax("chunk %s", id.c_str());
  }
  if (have_attr || have_box || !have_cmap || !have_head) bad_syntax("unfinished drawing");
  return d;
}
