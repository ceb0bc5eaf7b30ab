// Readers of the path formats and generators of curves to write.
#include "draw.h"
#include <cctype>
#include <cstdarg>
#include <memory>

void bad_syntax(const char *fmt, ...) {
  char b[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  eng::fail("syntax", "%s", b);
}

namespace {
// ---- text helpers
std::string clip(const std::string &s, size_t at, size_t n = 40) {
  std::string r = s.substr(at, n);
  for (char &ch : r)
    if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = '.';
  return r;
}
bool parse_num(const std::string &t, double &v) {
  if (t.empty()) return false;
  size_t i = 0;
  if (t[i] == '+' || t[i] == '-') i++;
  size_t digits = 0;
  while (i < t.size() && isdigit((unsigned char)t[i])) i++, digits++;
  if (i < t.size() && t[i] == '.') {
    i++;
    while (i < t.size() && isdigit((unsigned char)t[i])) i++, digits++;
  }
  if (!digits) return false;
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
    i++;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
    size_t k = i;
    while (i < t.size() && isdigit((unsigned char)t[i])) i++;
    if (k == i) return false;
  }
  if (i != t.size()) return false;
  v = strtod(t.c_str(), nullptr);
  return std::isfinite(v);
}
double num(const std::string &t, const char *what) {
  double v = 0;
  if (!parse_num(t, v)) bad_syntax("%s: \"%s\" is not a number", what, clip(t, 0).c_str());
  return v;
}
std::vector<std::string> lines_of(const std::string &f) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < f.size()) {
    size_t j = f.find('\n', i);
    if (j == std::string::npos) {
      r.push_back(f.substr(i));
      break;
    }
    r.push_back(f.substr(i, j - i));
    i = j + 1;
  }
  return r;
}
}  // namespace

// ---- SVG
namespace {
struct Xml {
  const std::string &s;
  size_t i = 0;
  explicit Xml(const std::string &t) : s(t) {}
  void ws() {
    while (i < s.size() && isspace((unsigned char)s[i])) i++;
  }
  bool lit(const char *t) {
    if (s.compare(i, strlen(t), t) == 0) {
      i += strlen(t);
      return true;
    }
    return false;
  }
  std::string name() {
    size_t k = i;
    while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("_:-.", s[i]))) i++;
    if (i == k) bad_syntax("XML: name expected at offset %zu: \"%s\"", i, clip(s, i).c_str());
    return s.substr(k, i - k);
  }
  std::map<std::string, std::string> attrs() {
    std::map<std::string, std::string> r;
    for (;;) {
      size_t k = i;
      ws();
      if (i >= s.size()) bad_syntax("XML: end of file inside a tag");
      if (s[i] == '>' || s[i] == '/' || s[i] == '?') return r;
      if (k == i) bad_syntax("XML: no space before an attribute at %zu", i);
      std::string n = name();
      ws();
      if (!lit("=")) bad_syntax("XML: attribute %s without value", n.c_str());
      ws();
      char q = i < s.size() ? s[i] : 0;
      if (q != '"' && q != '\'') bad_syntax("XML: attribute %s without quotes", n.c_str());
      size_t e = s.find(q, ++i);
      if (e == std::string::npos) bad_syntax("XML: attribute %s is not terminated", n.c_str());
      std::string v = s.substr(i, e - i);
      if (v.find('<') != std::string::npos || v.find('&') != std::string::npos) bad_syntax("XML: attribute %s holds markup", n.c_str());
      i = e + 1;
      if (!r.emplace(n, v).second) bad_syntax("XML: attribute %s given twice", n.c_str());
    }
  }
};
// path data; flips nothing
void svg_path(const std::string &d, Paint &p) {
  size_t i = 0;
  auto sep = [&] {
    while (i < d.size() && (isspace((unsigned char)d[i]) || d[i] == ',')) i++;
  };
  auto number = [&]() -> double {
    sep();
    size_t k = i;
    if (i < d.size() && (d[i] == '+' || d[i] == '-')) i++;
    while (i < d.size() && isdigit((unsigned char)d[i])) i++;
    if (i < d.size() && d[i] == '.') {
      i++;
      while (i < d.size() && isdigit((unsigned char)d[i])) i++;
    }
    if (i < d.size() && (d[i] == 'e' || d[i] == 'E')) {
      i++;
      if (i < d.size() && (d[i] == '+' || d[i] == '-')) i++;
      while (i < d.size() && isdigit((unsigned char)d[i])) i++;
    }
    return num(d.substr(k, i - k), "SVG path");
  };
  auto more = [&] {
    sep();
    return i < d.size() && (isdigit((unsigned char)d[i]) || strchr("+-.", d[i]));
  };
  P2 cur{0, 0};
  for (;;) {
    sep();
    if (i >= d.size()) break;
    char cmd = d[i++];
    bool rel = islower((unsigned char)cmd);
    auto pt = [&] {
      P2 q;
      q.x = number();
      q.y = number();
      if (rel) q.x += cur.x, q.y += cur.y;
      return q;
    };
    switch (toupper(cmd)) {
      case 'M': {
        Sub s;
        s.start = cur = pt();
        p.subs.push_back(s);
        if (more()) bad_syntax("SVG path: implicit line after moveto");
        break;
      }
      case 'L':
      case 'C': {
        if (p.subs.empty() || p.subs.back().closed) bad_syntax("SVG path: %c without moveto", cmd);
        do {
          Piece g{};
          g.cubic = toupper(cmd) == 'C';
          if (g.cubic) g.a = pt(), g.b = pt();
          g.e = pt();
          cur = g.e;
          p.subs.back().segs.push_back(g);
        } while (more());
        break;
      }
      case 'Z':
        if (p.subs.empty()) bad_syntax("SVG path: closepath without path");
        p.subs.back().closed = true;
        cur = p.subs.back().start;
        break;
      default: bad_syntax("SVG path: command '%c'", cmd);
    }
  }
}
bool hex_color(const std::string &t, double *rgb) {
  if (t.size() != 7 || t[0] != '#') return false;
  for (int i = 1; i < 7; i++)
    if (!isxdigit((unsigned char)t[i])) return false;
  unsigned v = (unsigned)strtoul(t.c_str() + 1, nullptr, 16);
  rgb[0] = (v >> 16) / 255., rgb[1] = (v >> 8 & 255) / 255., rgb[2] = (v & 255) / 255.;
  return true;
}
}  // namespace
Drawing read_svg(const std::string &f) {
  Drawing d;
  Xml x(f);
  if (x.lit("<?xml")) {
    x.attrs();
    if (!x.lit("?>")) bad_syntax("XML declaration not closed");
  }
  x.ws();
  if (x.lit("<!DOCTYPE")) {
    size_t e = f.find('>', x.i);
    if (e == std::string::npos) bad_syntax("DOCTYPE not closed");
    x.i = e + 1;
    x.ws();
  }
  if (!x.lit("<svg")) bad_syntax("no svg element");
  auto a = x.attrs();
  if (!x.lit(">")) bad_syntax("svg element not closed");
  if (a["xmlns"] != "http://www.w3.org/2000/svg") bad_syntax("svg namespace is \"%s\"", a["xmlns"].c_str());
  d.has_size = true;
  d.x1 = num(a["width"], "svg width"), d.y1 = num(a["height"], "svg height");
  for (;;) {
    x.ws();
    if (x.lit("</svg>")) break;
    if (!x.lit("<path")) bad_syntax("unexpected content in svg at offset %zu: \"%s\"", x.i, clip(f, x.i).c_str());
    auto p = x.attrs();
    if (!x.lit("/>")) bad_syntax("path element not closed at %zu", x.i);
    Paint pt;
    std::map<std::string, std::string> style;
    std::string st = p["style"];
    for (size_t i = 0; i < st.size();) {
      size_t e = st.find(';', i);
      if (e == std::string::npos) e = st.size();
      std::string item = st.substr(i, e - i);
      i = e + 1;
      size_t k = item.find(':');
      auto trim = [](std::string t) {
        while (!t.empty() && isspace((unsigned char)t[0])) t.erase(0, 1);
        while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
        return t;
      };
      if (trim(item).empty()) continue;
      if (k == std::string::npos) bad_syntax("style item \"%s\"", item.c_str());
      style[trim(item.substr(0, k))] = trim(item.substr(k + 1));
    }
    for (const char *n : {"fill", "stroke"})
      if (!style.count(n) && p.count(n)) style[n] = p[n];
    std::string fi = style.count("fill") ? style["fill"] : "#000000", sk = style.count("stroke") ? style["stroke"] : "none";
    if ((fi == "none") == (sk == "none")) bad_syntax("path with fill %s and stroke %s", fi.c_str(), sk.c_str());
    pt.fill = sk == "none";
    if (!hex_color(pt.fill ? fi : sk, pt.rgb)) bad_syntax("colour \"%s\"", (pt.fill ? fi : sk).c_str());
    svg_path(p["d"], pt);
    d.paints.push_back(pt);
  }
  x.ws();
  if (x.i != f.size()) bad_syntax("content after </svg>");
  return d;
}

// ---- Sketch
Drawing read_sk(const std::string &f) {
  Drawing d;
  auto ls = lines_of(f);
  if (f.empty() || f.back() != '\n') bad_syntax("last line not terminated");
  if (ls.empty() || ls[0] != "##Sketch 1 0") bad_syntax("no Sketch header");
  bool doc = false, layer = false, line = true, fill = false;
  double lc[3] = {0, 0, 0}, fc[3] = {0, 0, 0};
  for (size_t i = 1; i < ls.size(); i++) {
    const std::string &l = ls[i];
    size_t o = l.find('(');
    if (o == std::string::npos || l.back() != ')') bad_syntax("line \"%s\"", clip(l, 0).c_str());
    std::string cmd = l.substr(0, o), arg = l.substr(o + 1, l.size() - o - 2);
    auto args = [&](size_t n) {
      std::vector<double> r;
      std::string t = arg;
      if (!t.empty() && t[0] == '(') {
        if (t.back() != ')') bad_syntax("line \"%s\"", clip(l, 0).c_str());
        t = t.substr(1, t.size() - 2);
      }
      size_t k = 0;
      while (k <= t.size() && !t.empty()) {
        size_t e = t.find(',', k);
        if (e == std::string::npos) e = t.size();
        r.push_back(num(t.substr(k, e - k), "sk"));
        k = e + 1;
      }
      if (r.size() != n) bad_syntax("line \"%s\": %zu arguments instead of %zu", clip(l, 0).c_str(), r.size(), n);
      return r;
    };
    if (cmd == "document") doc = true;
    else if (cmd == "layer") {
      if (!doc) bad_syntax("layer before document");
      layer = true;
    } else if (cmd == "guess_cont") args(0);
    else if (cmd == "lp") {
      auto v = args(3);
      for (int k = 0; k < 3; k++) lc[k] = v[k];
      line = true;
    } else if (cmd == "fp") {
      auto v = args(3);
      for (int k = 0; k < 3; k++) fc[k] = v[k];
      fill = true;
    } else if (cmd == "le") args(0), line = false;
    else if (cmd == "fe") args(0), fill = false;
    else if (cmd == "b") {
      args(0);
      if (!layer) bad_syntax("object before layer");
      if (line == fill) bad_syntax("object with%s line and%s fill", line ? "" : "out", fill ? "" : "out");
      Paint p;
      p.fill = fill;
      for (int k = 0; k < 3; k++) p.rgb[k] = fill ? fc[k] : lc[k];
      d.paints.push_back(p);
      line = true, fill = false;  // properties hold for one object
    } else if (cmd == "bs") {
      auto v = args(3);
      if (d.paints.empty()) bad_syntax("point before object");
      auto &s = d.paints.back().subs;
      if (s.empty()) {
        s.push_back(Sub());
        s[0].start = {v[0], v[1]};
      } else s.back().segs.push_back({false, {}, {}, {v[0], v[1]}});
    } else if (cmd == "bc") {
      auto v = args(7);
      if (d.paints.empty() || d.paints.back().subs.empty()) bad_syntax("curve without start point");
      d.paints.back().subs.back().segs.push_back({true, {v[0], v[1]}, {v[2], v[3]}, {v[4], v[5]}});
    } else if (cmd == "bC") {
      args(0);
      if (d.paints.empty() || d.paints.back().subs.empty()) bad_syntax("close without path");
      d.paints.back().subs.back().closed = true;
    } else bad_syntax("command \"%s\"", clip(cmd, 0).c_str());
  }
  if (!doc || !layer) bad_syntax("no document or layer");
  return d;
}

// ---- PostScript: a small interpreter, so that the procedures a file defines count
namespace {
struct PsObj;
typedef std::shared_ptr<PsObj> PsP;
struct PsObj {
  enum T { num, name, lname, proc, arr, boolean, str } t;
  double v = 0;
  std::string s;
  std::vector<PsP> body;
};
struct Ps {
  std::map<std::string, PsP> dict;
  std::vector<PsP> st;
  Drawing d;
  std::vector<Sub> path;
  double rgb[3] = {0, 0, 0};
  bool shown = false;
  int depth = 0;
  long steps = 0;
  PsP pop(const char *op) {
    if (st.empty()) bad_syntax("PostScript: stack underflow in %s", op);
    PsP p = st.back();
    st.pop_back();
    return p;
  }
  double popn(const char *op) {
    PsP p = pop(op);
    if (p->t != PsObj::num) bad_syntax("PostScript: %s needs a number", op);
    return p->v;
  }
  P2 popp(const char *op) {
    P2 p;
    p.y = popn(op);
    p.x = popn(op);
    return p;
  }
  void paint(bool fill) {
    // an open subpath is closed by filling it
    if (path.empty()) return;
    Paint p;
    p.fill = fill;
    memcpy(p.rgb, rgb, sizeof rgb);
    p.subs = path;
    d.paints.push_back(p);
    path.clear();
  }
  void run(const std::string &op) {
    if (++steps > 50000000) bad_syntax("PostScript: too long");
    auto it = dict.find(op);
    if (it != dict.end()) {
      if (it->second->t == PsObj::proc) {
        if (++depth > 100) bad_syntax("PostScript: recursion in %s", op.c_str());
        std::vector<PsP> body = it->second->body;
        for (auto &o : body) exec(o);
        depth--;
      } else st.push_back(it->second);
      return;
    }
    const char *o = op.c_str();
    if (op == "def") {
      PsP v = pop(o), k = pop(o);
      if (k->t != PsObj::lname) bad_syntax("PostScript: def of something that is not a name");
      dict[k->s] = v;
    } else if (op == "bind") {
      if (st.empty() || st.back()->t != PsObj::proc) bad_syntax("PostScript: bind without procedure");
    } else if (op == "true" || op == "false") {
      PsP p(new PsObj{PsObj::boolean});
      p->v = op == "true";
      st.push_back(p);
    } else if (op == "not") {
      PsP a = pop(o), p(new PsObj{PsObj::boolean});
      if (a->t != PsObj::boolean) bad_syntax("PostScript: not needs a boolean");
      p->v = !a->v;
      st.push_back(p);
    } else if (op == "if") {
      PsP pr = pop(o), b = pop(o);
      if (b->t != PsObj::boolean || pr->t != PsObj::proc) bad_syntax("PostScript: operands of if");
      if (b->v)
        for (auto &x : pr->body) exec(x);
    } else if (op == "pop") pop(o);
    else if (op == "exch") {
      PsP b = pop(o), a = pop(o);
      st.push_back(b), st.push_back(a);
    } else if (op == "dup") {
      PsP a = pop(o);
      st.push_back(a), st.push_back(a);
    } else if (op == "neg") {
      PsP p(new PsObj{PsObj::num});
      p->v = -popn(o);
      st.push_back(p);
    } else if (op == "string") {
      popn(o);
      st.push_back(PsP(new PsObj{PsObj::str}));
    } else if (op == "newpath") path.clear();
    else if (op == "moveto") {
      Sub s;
      s.start = popp(o);
      path.push_back(s);
    } else if (op == "lineto") {
      P2 e = popp(o);
      if (path.empty()) bad_syntax("PostScript: lineto without current point");
      reopen();
      path.back().segs.push_back({false, {}, {}, e});
    } else if (op == "curveto") {
      P2 e = popp(o), b = popp(o), a = popp(o);
      if (path.empty()) bad_syntax("PostScript: curveto without current point");
      reopen();
      path.back().segs.push_back({true, a, b, e});
    } else if (op == "closepath") {
      if (!path.empty()) path.back().closed = true;
    } else if (op == "fill" || op == "eofill") paint(true);
    else if (op == "stroke") paint(false);
    else if (op == "setcmykcolor") {
      double k = popn(o), y = popn(o), m = popn(o), c = popn(o);
      for (double v : {c, m, y, k})
        if (v < 0 || v > 1) bad_syntax("PostScript: colour component %g", v);
      rgb[0] = 1 - std::min(1., c + k), rgb[1] = 1 - std::min(1., m + k), rgb[2] = 1 - std::min(1., y + k);
    } else if (op == "setrgbcolor") {
      rgb[2] = popn(o), rgb[1] = popn(o), rgb[0] = popn(o);
    } else if (op == "setgray") rgb[0] = rgb[1] = rgb[2] = popn(o);
    else if (op == "setlinecap" || op == "setlinejoin" || op == "setmiterlimit" || op == "setlinewidth") popn(o);
    else if (op == "setdash") {
      popn(o);
      if (pop(o)->t != PsObj::arr) bad_syntax("PostScript: setdash needs an array");
    } else if (op == "showpage") shown = true;
    else bad_syntax("PostScript: undefined name \"%s\"", clip(op, 0).c_str());
  }
  void reopen() {  // drawing goes on from the start of a closed subpath
    if (path.back().closed) {
      Sub s;
      s.start = path.back().start;
      path.push_back(s);
    }
  }
  void exec(const PsP &o) {
    if (o->t == PsObj::name) run(o->s);
    else st.push_back(o);
  }
};
struct PsLex {
  const std::string &s;
  size_t i = 0;
  std::vector<std::string> comments;
  explicit PsLex(const std::string &t) : s(t) {}
  // false at the end; procedures come as one object
  bool next(PsP &out, int nest = 0) {
    for (;;) {
      while (i < s.size() && isspace((unsigned char)s[i])) i++;
      if (i < s.size() && s[i] == '%') {
        size_t e = s.find('\n', i);
        if (e == std::string::npos) e = s.size();
        comments.push_back(s.substr(i, e - i));
        i = e;
        continue;
      }
      break;
    }
    if (i >= s.size()) return false;
    char ch = s[i];
    if (ch == '{' || ch == '[') {
      i++;
      char cl = ch == '{' ? '}' : ']';
      out.reset(new PsObj{ch == '{' ? PsObj::proc : PsObj::arr});
      if (nest > 50) bad_syntax("PostScript: nesting");
      for (;;) {
        size_t k = i;
        while (k < s.size() && isspace((unsigned char)s[k])) k++;
        if (k < s.size() && s[k] == cl) {
          i = k + 1;
          return true;
        }
        PsP o;
        if (!next(o, nest + 1)) bad_syntax("PostScript: '%c' not closed", ch);
        out->body.push_back(o);
      }
    }
    if (ch == '}' || ch == ']' || ch == ')' || ch == '>' || ch == '<') bad_syntax("PostScript: stray '%c'", ch);
    if (ch == '(') {
      int d = 0;
      size_t k = i;
      for (; i < s.size(); i++) {
        if (s[i] == '\\') i++;
        else if (s[i] == '(') d++;
        else if (s[i] == ')' && --d == 0) break;
      }
      if (i >= s.size()) bad_syntax("PostScript: string not closed");
      i++;
      out.reset(new PsObj{PsObj::str});
      out->s = s.substr(k, i - k);
      return true;
    }
    bool lit = ch == '/';
    size_t k = i;
    if (lit) i++;
    while (i < s.size() && !isspace((unsigned char)s[i]) && !strchr("()<>[]{}/%", s[i])) i++;
    std::string t = s.substr(lit ? k + 1 : k, i - k - lit);
    double v;
    if (!lit && parse_num(t, v)) {
      out.reset(new PsObj{PsObj::num});
      out->v = v;
    } else {
      out.reset(new PsObj{lit ? PsObj::lname : PsObj::name});
      out->s = t;
    }
    return true;
  }
};
}  // namespace
Drawing read_ps(const std::string &f) {
  if (f.compare(0, 11, "%!PS-Adobe-")) bad_syntax("no PostScript header");
  if (f.back() != '\n') bad_syntax("last line not terminated");
  Ps ps;
  PsLex lx(f);
  PsP o;
  while (lx.next(o)) ps.exec(o);
  if (!ps.st.empty()) bad_syntax("PostScript: %zu objects left on the stack", ps.st.size());
  if (!ps.path.empty()) bad_syntax("PostScript: a path is never painted");
  int boxes = 0;
  bool prolog = false, setup = false;
  for (auto &cm : lx.comments) {
    if (cm.compare(0, 14, "%%BoundingBox:") == 0 && cm.find("(atend)") == std::string::npos) {
      char tail;
      double v[4];
      if (sscanf(cm.c_str() + 14, "%lf %lf %lf %lf %c", v, v + 1, v + 2, v + 3, &tail) != 4) bad_syntax("bounding box \"%s\"", cm.c_str());
      ps.d.x0 = v[0], ps.d.y0 = v[1], ps.d.x1 = v[2], ps.d.y1 = v[3];
      boxes++;
    }
    if (cm == "%%BeginProlog") prolog = true;
    if (cm == "%%EndProlog" && !prolog) bad_syntax("EndProlog without BeginProlog");
    if (cm == "%%BeginSetup") setup = true;
    if (cm == "%%EndSetup" && !setup) bad_syntax("EndSetup without BeginSetup");
  }
  if (boxes != 1) bad_syntax("%d bounding boxes", boxes);
  ps.d.has_size = true;
  if (lx.comments.empty() || lx.comments.back() != "%%EOF") bad_syntax("no end-of-file comment");
  return ps.d;
}

// ---- PDF page operators
namespace {
void pdf_ops(const std::string &t, Drawing &d) {
  std::vector<double> st;
  double fc[3] = {0, 0, 0}, sc[3] = {0, 0, 0};
  std::vector<Sub> path;
  size_t i = 0;
  auto need = [&](size_t n, const char *op) {
    if (st.size() != n) bad_syntax("operator %s with %zu operands", op, st.size());
  };
  while (i < t.size()) {
    while (i < t.size() && isspace((unsigned char)t[i])) i++;
    if (i >= t.size()) break;
    if (t[i] == '%') {
      while (i < t.size() && t[i] != '\n') i++;
      continue;
    }
    size_t k = i;
    while (i < t.size() && !isspace((unsigned char)t[i])) i++;
    std::string w = t.substr(k, i - k);
    double v;
    if (parse_num(w, v)) {
      st.push_back(v);
      continue;
    }
    if (w == "m") {
      need(2, "m");
      Sub s;
      s.start = {st[0], st[1]};
      path.push_back(s);
    } else if (w == "l") {
      need(2, "l");
      if (path.empty() || path.back().closed) bad_syntax("l without current point");
      path.back().segs.push_back({false, {}, {}, {st[0], st[1]}});
    } else if (w == "c") {
      need(6, "c");
      if (path.empty() || path.back().closed) bad_syntax("c without current point");
      path.back().segs.push_back({true, {st[0], st[1]}, {st[2], st[3]}, {st[4], st[5]}});
    } else if (w == "h") {
      need(0, "h");
      if (!path.empty()) path.back().closed = true;
    } else if (w == "rg" || w == "RG") {
      need(3, "rg");
      for (int q = 0; q < 3; q++) {
        if (st[q] < 0 || st[q] > 1) bad_syntax("colour component %g", st[q]);
        (w == "rg" ? fc : sc)[q] = st[q];
      }
    } else if (w == "f" || w == "F" || w == "f*" || w == "S" || w == "s") {
      need(0, w.c_str());
      if (path.empty()) bad_syntax("operator %s without path", w.c_str());
      Paint p;
      p.fill = w[0] != 'S' && w[0] != 's';
      if (w == "s") path.back().closed = true;
      memcpy(p.rgb, p.fill ? fc : sc, sizeof fc);
      p.subs = path;
      path.clear();
      d.paints.push_back(p);
    } else bad_syntax("operator \"%s\"", clip(w, 0).c_str());
    st.clear();
  }
  if (!path.empty() || !st.empty()) bad_syntax("unfinished path at the end");
}
}  // namespace
Drawing read_epd(const std::string &f) {
  Drawing d;
  if (f.compare(0, 9, "%EPD-1.0\n")) bad_syntax("no EPD header");
  if (f.back() != '\n') bad_syntax("last line not terminated");
  for (auto &l : lines_of(f))
    if (l.compare(0, 6, "%BBox(") == 0) {
      char tail;
      if (d.has_size || sscanf(l.c_str() + 6, "%lf,%lf,%lf,%lf%c", &d.x0, &d.y0, &d.x1, &d.y1, &tail) != 5 || tail != ')') bad_syntax("BBox line \"%s\"", clip(l, 0).c_str());
      d.has_size = true;
    }
  if (!d.has_size) bad_syntax("no BBox");
  pdf_ops(f, d);
  return d;
}
Drawing read_pdf(const std::string &f) {
  Drawing d;
  if (f.compare(0, 5, "%PDF-")) bad_syntax("no PDF header");
  // trailer: %%EOF, startxref, xref table with exact offsets
  size_t e = f.rfind("%%EOF");
  if (e == std::string::npos || f.size() - e > 7) bad_syntax("no %%%%EOF at the end");
  size_t sx = f.rfind("startxref");
  if (sx == std::string::npos) bad_syntax("no startxref");
  unsigned long xo = strtoul(f.c_str() + sx + 9, nullptr, 10);
  if (xo >= f.size() || f.compare(xo, 5, "xref\n")) bad_syntax("startxref %lu points at \"%s\"", xo, xo < f.size() ? clip(f, xo, 12).c_str() : "nothing");
  size_t p = xo + 5;
  unsigned first, n;
  int used = 0;
  if (sscanf(f.c_str() + p, "%u %u%n", &first, &n, &used) != 2 || first != 0 || n < 2 || n > 1000) bad_syntax("xref section header");
  p += used;
  if (f[p] == ' ') p++;
  if (f[p] != '\n') bad_syntax("xref section header line");
  p++;
  std::vector<size_t> off(n);
  for (unsigned i = 0; i < n; i++) {
    std::string l = f.substr(p, 20);
    if (l.size() != 20 || l[10] != ' ' || l[16] != ' ' || !(l.substr(18) == " \n" || l.substr(18) == "\r\n") || (l[17] != 'n' && l[17] != 'f')) bad_syntax("xref entry %u \"%s\"", i, clip(l, 0).c_str());
    if ((i == 0) != (l[17] == 'f')) bad_syntax("xref entry %u is of kind %c", i, l[17]);
    off[i] = strtoul(l.c_str(), nullptr, 10);
    p += 20;
  }
  if (f.compare(p, 7, "trailer")) bad_syntax("no trailer after the xref table");
  size_t sz = f.find("/Size", p);
  if (sz == std::string::npos || strtoul(f.c_str() + sz + 5, nullptr, 10) != n) bad_syntax("trailer size differs from the xref table");
  std::vector<std::string> obj(n);
  for (unsigned i = 1; i < n; i++) {
    std::string head = sfmt("%u 0 obj", i);
    if (off[i] >= f.size() || f.compare(off[i], head.size(), head)) bad_syntax("xref offset %zu of object %u points at \"%s\"", off[i], i, off[i] < f.size() ? clip(f, off[i], 12).c_str() : "nothing");
    if (off[i] > 0 && f[off[i] - 1] != '\n') bad_syntax("object %u does not start a line", i);
    size_t b = off[i] + head.size(), eo;
    size_t sm = f.find("stream\n", b), en = f.find("endobj", b);
    if (en == std::string::npos) bad_syntax("object %u has no end", i);
    if (sm != std::string::npos && sm < en) {
      size_t lp = f.find("/Length", b);
      if (lp == std::string::npos || lp > sm) bad_syntax("stream object %u without length", i);
      unsigned long len = strtoul(f.c_str() + lp + 7, nullptr, 10);
      size_t ds = sm + 7;
      if (ds + len > f.size() || f.compare(ds + len, 9, "endstream")) {
        if (ds + len + 1 > f.size() || f.compare(ds + len, 10, "\nendstream")) bad_syntax("stream of length %lu is followed by \"%s\"", len, ds + len < f.size() ? clip(f, ds + len, 12).c_str() : "nothing");
      }
      obj[i] = f.substr(b, sm - b) + " STREAM " + f.substr(ds, len);
      eo = f.find("endobj", ds + len);
      if (eo == std::string::npos) bad_syntax("object %u has no end", i);
    } else obj[i] = f.substr(b, en - b);
  }
  auto ref = [&](const std::string &o, const char *key) -> unsigned {
    size_t k = o.find(key);
    if (k == std::string::npos) bad_syntax("no %s", key);
    k += strlen(key);
    while (k < o.size() && (o[k] == ' ' || o[k] == '[')) k++;
    unsigned v = (unsigned)strtoul(o.c_str() + k, nullptr, 10);
    if (v == 0 || v >= n) bad_syntax("%s refers to object %u", key, v);
    return v;
  };
  size_t rt = f.find("/Root", p);
  if (rt == std::string::npos) bad_syntax("no root");
  unsigned root = ref(f.substr(p), "/Root");
  const std::string &cat = obj[root];
  if (cat.find("/Catalog") == std::string::npos) bad_syntax("the root is no catalog");
  const std::string &pages = obj[ref(cat, "/Pages")];
  const std::string &page = obj[ref(pages, "/Kids")];
  if (page.find("/Type /Page") == std::string::npos) bad_syntax("no page");
  size_t mb = page.find("/MediaBox");
  char t1;
  if (mb == std::string::npos || sscanf(page.c_str() + mb, "/MediaBox [%lf %lf %lf %lf%c", &d.x0, &d.y0, &d.x1, &d.y1, &t1) != 5 || t1 != ']') bad_syntax("media box");
  d.has_size = true;
  const std::string &cont = obj[ref(page, "/Contents")];
  size_t k = cont.find(" STREAM ");
  if (k == std::string::npos) bad_syntax("contents are no stream");
  pdf_ops(cont.substr(k + 8), d);
  return d;
}

// ---- POV-Ray prisms
Drawing read_pov(const std::string &f) {
  Drawing d;
  size_t i = 0;
  auto ws = [&] {
    while (i < f.size() && isspace((unsigned char)f[i])) i++;
  };
  auto word = [&](const char *w) {
    ws();
    if (f.compare(i, strlen(w), w)) bad_syntax("pov: \"%s\" expected, found \"%s\"", w, clip(f, i, 20).c_str());
    i += strlen(w);
  };
  auto number = [&] {
    ws();
    size_t k = i;
    while (i < f.size() && (isdigit((unsigned char)f[i]) || strchr("+-.eE", f[i]))) i++;
    return num(f.substr(k, i - k), "pov");
  };
  auto vec = [&](int n, double *v) {
    word("<");
    for (int k = 0; k < n; k++) {
      if (k) word(",");
      v[k] = number();
    }
    word(">");
  };
  for (;;) {
    ws();
    if (i >= f.size()) break;
    word("prism");
    word("{");
    word("bezier_spline");
    double lo = number(), hi = number();
    if (!(lo < hi)) bad_syntax("pov: prism from %g to %g", lo, hi);
    double cnt = number();
    ws();
    if (i < f.size() && f[i] == ',') i++;
    std::vector<P2> pts;
    for (;;) {
      double v[2];
      vec(2, v);
      pts.push_back({v[0], v[1]});
      ws();
      if (i < f.size() && f[i] == ',') i++;
      else break;
    }
    if (cnt != (double)pts.size()) bad_syntax("pov: prism of %g points holds %zu", cnt, pts.size());
    if (pts.size() % 4) bad_syntax("pov: %zu points are not whole curves", pts.size());
    Paint p;
    p.fill = true;
    word("pigment");
    word("{");
    word("rgb");
    vec(3, p.rgb);
    word("}");
    word("translate");
    double tr[3];
    vec(3, tr);
    if (tr[0] || tr[1] || tr[2]) bad_syntax("pov: translated");
    word("}");
    for (size_t k = 0; k < pts.size(); k += 4) {  // one piece each; lists are not marked
      Sub q;
      q.start = pts[k];
      q.segs.push_back({true, pts[k + 1], pts[k + 2], pts[k + 3]});
      p.subs.push_back(q);
    }
    d.paints.push_back(p);
  }
  return d;
}

// ---- Elastic Reality
ErFile read_er(const std::string &f) {
  ErFile r;
  if (f.compare(0, 28, "#Elastic Reality Shape File\n")) bad_syntax("no ER header");
  size_t i = 0;
  auto ws = [&] {
    for (;;) {
      while (i < f.size() && isspace((unsigned char)f[i])) i++;
      if (i < f.size() && f[i] == '#') {
        while (i < f.size() && f[i] != '\n') i++;
        continue;
      }
      break;
    }
  };
  auto tok = [&]() -> std::string {
    ws();
    if (i >= f.size()) return "";
    size_t k = i;
    if (strchr("={}(),", f[i])) return std::string(1, f[i++]);
    while (i < f.size() && !isspace((unsigned char)f[i]) && !strchr("={}(),", f[i])) i++;
    return f.substr(k, i - k);
  };
  auto expect = [&](const char *w) {
    std::string t = tok();
    if (t != w) bad_syntax("er: \"%s\" expected, found \"%s\"", w, clip(t, 0).c_str());
  };
  auto value = [&](const char *key) {
    expect(key);
    expect("=");
    return tok();
  };
  expect("ImageSize");
  expect("=");
  expect("{");
  r.w = (int)num(value("Width"), "er width"), r.h = (int)num(value("Height"), "er height");
  expect("}");
  for (;;) {
    std::string t = tok();
    if (t.empty()) break;
    if (t != "Shape") bad_syntax("er: \"%s\" instead of a shape", clip(t, 0).c_str());
    expect("=");
    expect("{");
    ErShape s;
    long bp = -1, cp = -1;
    bool closed = false, form = false, weight = false, corr = false;
    for (;;) {
      std::string key = tok();
      if (key == "}") break;
      if (key.empty()) bad_syntax("er: shape not closed");
      expect("=");
      if (key == "FormKey" || key == "WeightKey" || key == "CorrKey") {
        expect("{");
        if (value("Frame") != "1") bad_syntax("er: frame");
        expect("PointList");
        expect("=");
        expect("{");
        std::vector<double> v;
        int par = 0;
        for (;;) {
          std::string q = tok();
          if (q == "}") break;
          if (q == "(") par++;
          else if (q == ")") par--;
          else if (q == ",") continue;
          else v.push_back(num(q, "er"));
        }
        if (par) bad_syntax("er: parentheses");
        expect("}");
        if (key == "FormKey") {
          form = true;
          if (bp < 0 || v.size() != (size_t)bp * 6) bad_syntax("er: %zu numbers for %ld points", v.size(), bp);
          for (long k = 0; k < bp; k++) s.in.push_back({v[6 * k], v[6 * k + 1]}), s.p.push_back({v[6 * k + 2], v[6 * k + 3]}), s.out.push_back({v[6 * k + 4], v[6 * k + 5]});
        } else if (key == "WeightKey") {
          weight = true;
          if (v.size() != (size_t)bp * 3) bad_syntax("er: %zu weights for %ld points", v.size(), bp);
          for (long k = 0; k < bp; k++) s.win.push_back(v[3 * k]), s.wp.push_back(v[3 * k + 1]), s.wout.push_back(v[3 * k + 2]);
        } else {
          corr = true;
          if (v.size() != (size_t)cp) bad_syntax("er: %zu correspondence points instead of %ld", v.size(), cp);
          s.corr = v;
        }
      } else {
        std::string v = tok();
        if (key == "BPoints") bp = (long)num(v, "BPoints");
        else if (key == "CPoints") cp = (long)num(v, "CPoints");
        else if (key == "Closed") {
          if (v != "True" && v != "False") bad_syntax("er: Closed = %s", v.c_str());
          closed = true;
          s.closed = v == "True";
        }
      }
    }
    (void)weight;
    if (bp < 0 || cp < 0 || !closed || !form || !corr) bad_syntax("er: incomplete shape");
    r.shapes.push_back(s);
  }
  return r;
}

// ---- generators
Curves::~Curves() {
  if (!s) return;
  if (traced) {
    at_splines_free(s);
    return;
  }
  for (unsigned i = 0; i < s->length; i++) free(s->data[i].data);
  free(s->data);
  at_color_free(s->background_color);
  free(s);
}
std::string gen_name(Ctx &c) {
  static const std::vector<std::string> names{"name", "", "a b.png", "50%s 100%n %", "(open", "close)", "<&\">'", "\\back", "Gr\xc3\xbc\xc3\x9f" "e", "{x}", "a-very-long-file-name-with-many-characters-in-it-so-that-fixed-size-buffers-are-too-small-for-it-0123456789-0123456789-0123456789.bmp"};
  if (c.chance(1, 20)) return std::string((size_t)c.range(20, 700), 'n') + ".png";
  return c.chance(2, 5) ? c.pick(names) : "name";
}
void gen_curves(Ctx &c, Curves &k, const CurveOpts &o) {
  init_lib();
  if (c.chance(2, 5)) {
    TraceCase t;
    gen_case(c, t, 24, Opt::plain);
    if (o.center && c.chance(2, 5)) {
      t.fo->centerline = true;
      if (c.chance(1, 2)) t.fo->preserve_width = true;
      t.fo->width_weight_factor = c.real(1, 10);
    }
    Msgs m;
    k.s = trace(t.im, t.fo.o, m);
    k.traced = true;
    REQUIRE(k.s, "no-result", "tracing gave no result: %s", m.last.c_str());
    c.label("traced");
  } else {
    at_splines_type *s = (at_splines_type *)calloc(1, sizeof *s);
    k.s = s;
    int scale = o.huge ? c.weighted({8, 2, 1}) : 0;
    int lim = scale == 0 ? o.maxdim : scale == 1 ? 3000 : 65535;
    s->width = (unsigned short)c.skewed(1, lim), s->height = c.chance(1, 4) ? s->width : (unsigned short)c.skewed(1, lim);
    s->centerline = o.center && c.chance(2, 5);
    s->preserve_width = c.chance(1, 3);
    s->width_weight_factor = c.real(1, 10);
    bool bg = c.coin();
    if (bg) {
      RGB b = gen_color(c);
      s->background_color = at_color_new(b.r, b.g, b.b);
    }
    static const std::vector<RGB> named{{0, 0, 0}, {255, 255, 255}, {255, 0, 0}, {0, 255, 0}, {0, 0, 255}, {0, 255, 255}, {255, 0, 255}, {255, 255, 0}};
    std::vector<RGB> pal;
    int nc = c.range(1, 5);
    for (int i = 0; i < nc; i++) pal.push_back(c.chance(1, 3) ? c.pick(named) : gen_color(c));
    if (c.chance(1, 8)) pal[0] = RGB{0, 0, 0};
    s->length = c.chance(1, 14) ? 0 : o.many_colors && c.chance(1, 40) ? c.range(30, 600) : 1 + (unsigned)c.skewed(0, o.maxlists - 1);
    s->data = (at_spline_list_type *)calloc(s->length ? s->length : 1, sizeof *s->data);
    bool rainbow = s->length > 30;
    int style = c.weighted({2, 3, 2, 2});
    auto coord = [&](double lim2, bool control) {
      double lo = control ? -.3 : 0, hi = control ? lim2 + .3 : lim2;
      switch (style) {
        case 0: return (double)c.range(0, (int)lim2);
        case 1: return c.range(0, 2 * (int)lim2) / 2.;
        case 2: return c.real(lo, hi, 1 << 20);
        default: return c.chance(1, 3) ? (double)c.range(0, (int)lim2) : c.real(lo, hi, 997);
      }
    };
    for (unsigned i = 0; i < s->length; i++) {
      at_spline_list_type &l = s->data[i];
      RGB col = rainbow ? RGB{(uint8_t)(i * 37), (uint8_t)(i >> 3), (uint8_t)(i * 11)} : c.chance(1, 3) && i ? RGB{s->data[i - 1].color.r, s->data[i - 1].color.g, s->data[i - 1].color.b} : c.pick(pal);
      l.color.r = col.r, l.color.g = col.g, l.color.b = col.b;
      l.open = s->centerline && c.coin();
      l.clockwise = bg && !s->centerline && c.chance(1, 4);
      l.length = rainbow ? 1 : 1 + (unsigned)c.skewed(0, o.maxpieces - 1);
      l.data = (at_spline_type *)calloc(l.length, sizeof *l.data);
      at_real_coord st{(float)coord(s->width, false), (float)coord(s->height, false), s->centerline ? (float)c.real(0, 6, 60) : 0};
      at_real_coord cur = st;
      for (unsigned j = 0; j < l.length; j++) {
        at_spline_type &g = l.data[j];
        g.degree = c.coin() ? AT_CUBICTYPE : AT_LINEARTYPE;
        g.linearity = 0;
        g.v[0] = cur;
        for (int q = 1; q < 4; q++) {
          g.v[q].x = (float)coord(s->width, q < 3), g.v[q].y = (float)coord(s->height, q < 3);
          g.v[q].z = s->centerline ? (float)c.real(0, 6, 60) : 0;
        }
        if (j + 1 == l.length && !l.open) g.v[3] = st;
        cur = g.v[3];
      }
    }
    c.label("hand-built");
    if (rainbow) c.label("many colours");
    if (scale) c.label("large picture");
  }
  if (k.s->centerline) c.label("centre-line");
  if (k.s->length == 0) c.label("no curves");
  for (unsigned i = 0; i < k.s->length; i++)
    for (unsigned j = 0; j < k.s->data[i].length; j++)
      for (int q = 0; q < 4; q++) k.big = std::max({k.big, std::fabs((double)k.s->data[i].data[j].v[q].x), std::fabs((double)k.s->data[i].data[j].v[q].y)});
}
