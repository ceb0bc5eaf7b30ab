// W01..W03: what written files describe.
#include "quant.h"
#include "readers.h"
#include <algorithm>
#include <functional>
#include <set>

namespace {
// Tolerances of one format: absolute, and relative to the value written.
struct Tol {
  double abs, rel;
  bool ok(double got, double want) const { return std::fabs(got - want) <= abs + rel * std::fabs(want); }
};
std::string at(unsigned i, unsigned j) { return sfmt("list %u piece %u", i, j); }
void same_point(P2 got, double x, double y, const Tol &t, const std::string &where) {
  REQUIRE(t.ok(got.x, x) && t.ok(got.y, y), "coordinate", "%s: (%.9g, %.9g) written for (%.9g, %.9g)", where.c_str(), got.x, got.y, x, y);
}
void same_color(const Paint &p, const at_color &c, unsigned i) {
  int r = (int)std::lround(p.rgb[0] * 255), g = (int)std::lround(p.rgb[1] * 255), b = (int)std::lround(p.rgb[2] * 255);
  REQUIRE(r == c.r && g == c.g && b == c.b, "colour", "list %u has colour %02x%02x%02x, written as (%g, %g, %g)", i, c.r, c.g, c.b, p.rgb[0], p.rgb[1], p.rgb[2]);
}
// Compares what is drawn with the curves, list by list.  must_close: 1 every filled list is closed
// by a command of its own, 2 the last one of a filled path is; group: a hole is in one path with
// the list before it, so that it cuts out of it.
void same_drawing(const Drawing &d, const at_splines_type *s, const Tol &t, bool flip, bool size, int must_close = 0, bool group = true, bool holes = false) {
  double h = flip ? s->height : 0, f = flip ? -1 : 1;
  if (size) {
    REQUIRE(d.has_size, "size", "no picture size");
    REQUIRE(d.x0 == 0 && d.y0 == 0 && d.x1 == s->width && d.y1 == s->height, "size", "picture of %ux%u stated as (%g, %g)..(%g, %g)", s->width, s->height, d.x0, d.y0, d.x1, d.y1);
  }
  unsigned i = 0;
  for (const Paint &p : d.paints)
    for (const Sub &u : p.subs) {
      REQUIRE(i < s->length, "extra-list", "%u lists, but more are drawn", s->length);
      const at_spline_list_type &l = s->data[i];
      REQUIRE(p.fill == !stroked(s, l), "paint", "list %u is %s", i, p.fill ? "filled instead of stroked" : "stroked instead of filled");
      same_color(p, holes && l.clockwise && s->background_color ? *s->background_color : l.color, i);
      same_point(u.start, l.data[0].v[0].x, h + f * l.data[0].v[0].y, t, sfmt("start of list %u", i));
      REQUIRE(u.segs.size() == l.length, "pieces", "list %u of %u pieces is drawn in %zu", i, l.length, u.segs.size());
      for (unsigned j = 0; j < l.length; j++) {
        const at_spline_type &g = l.data[j];
        const Piece &e = u.segs[j];
        REQUIRE(e.cubic == (g.degree == AT_CUBICTYPE), "kind", "%s is a %s, drawn as a %s", at(i, j).c_str(), g.degree == AT_CUBICTYPE ? "curve" : "line", e.cubic ? "curve" : "line");
        if (e.cubic) {
          same_point(e.a, g.v[1].x, h + f * g.v[1].y, t, at(i, j) + " first control point");
          same_point(e.b, g.v[2].x, h + f * g.v[2].y, t, at(i, j) + " second control point");
        }
        same_point(e.e, g.v[3].x, h + f * g.v[3].y, t, at(i, j) + " end");
      }
      // a closed list comes back to its start by itself; an open one must not be joined up
      if (p.fill && (must_close == 1 || (must_close == 2 && &u == &p.subs.back()))) REQUIRE(u.closed, "closed", "filled list %u is left open", i);
      if (l.open) REQUIRE(!u.closed, "closed", "open list %u is closed", i);
      if (group && p.fill && i && l.clockwise && !holes && at_color_equal(&l.color, &s->data[i - 1].color) && !stroked(s, s->data[i - 1]))
        REQUIRE(&u != &p.subs.front(), "hole", "hole %u is not in one path with list %u and is painted over it", i, i - 1);
      i++;
    }
  REQUIRE(i == s->length, "missing-list", "%u of %u lists are drawn", i, s->length);
}
void same_pov(const Drawing &d, const at_splines_type *s, const Tol &t) {
  std::vector<std::pair<unsigned, unsigned>> all;
  for (unsigned i = 0; i < s->length; i++)
    for (unsigned j = 0; j < s->data[i].length; j++) all.push_back({i, j});
  size_t n = 0;
  for (const Paint &p : d.paints)
    for (const Sub &u : p.subs) {
      REQUIRE(n < all.size(), "extra-list", "%zu pieces, but more are drawn", all.size());
      unsigned i = all[n].first, j = all[n].second;
      n++;
      const at_spline_type &g = s->data[i].data[j];
      bool cu = g.degree == AT_CUBICTYPE;
      same_color(p, s->data[i].color, i);
      same_point(u.start, g.v[0].x, g.v[0].y, t, at(i, j) + " start");
      same_point(u.segs[0].e, g.v[3].x, g.v[3].y, t, at(i, j) + " end");
      if (cu) {
        same_point(u.segs[0].a, g.v[1].x, g.v[1].y, t, at(i, j) + " first control point");
        same_point(u.segs[0].b, g.v[2].x, g.v[2].y, t, at(i, j) + " second control point");
      } else  // any controls on the straight way
        for (P2 q : {u.segs[0].a, u.segs[0].b}) {
          double dx = g.v[3].x - g.v[0].x, dy = g.v[3].y - g.v[0].y, px = q.x - g.v[0].x, py = q.y - g.v[0].y, len = std::hypot(dx, dy);
          double off = len > 0 ? std::fabs(dx * py - dy * px) / len : std::hypot(px, py), along = len > 0 ? (dx * px + dy * py) / len : 0;
          double e = 3 * (t.abs + t.rel * (std::fabs(q.x) + std::fabs(q.y)));
          REQUIRE(off <= e && along >= -e && along <= len + e, "coordinate", "%s is a line, drawn with a control point at (%g, %g)", at(i, j).c_str(), q.x, q.y);
        }
    }
  REQUIRE(n == all.size(), "missing-list", "%zu of %zu pieces are drawn", n, all.size());
}
void same_er(const ErFile &e, const at_splines_type *s) {
  REQUIRE(e.w == s->width && e.h == s->height, "size", "picture of %ux%u stated as %dx%d", s->width, s->height, e.w, e.h);
  REQUIRE(e.shapes.size() == s->length, "lists", "%u lists are written as %zu shapes", s->length, e.shapes.size());
  const Tol t{6e-7, 1e-6};
  double w = s->width, h = s->height;
  for (unsigned i = 0; i < s->length; i++) {
    const at_spline_list_type &l = s->data[i];
    const ErShape &q = e.shapes[i];
    REQUIRE(q.closed == !l.open, "closed", "%s list %u written as %s", l.open ? "open" : "closed", i, q.closed ? "closed" : "open");
    size_t np = q.p.size();
    REQUIRE(np == l.length || np == l.length + 1, "pieces", "list %u of %u pieces has %zu points", i, l.length, np);
    REQUIRE(!l.open || np == l.length + 1, "pieces", "open list %u of %u pieces has %zu points", i, l.length, np);
    bool weights = s->centerline && s->preserve_width;
    REQUIRE(weights == !q.wp.empty(), "weights", "list %u %s widths", i, weights ? "lacks" : "has");
    double k = weights ? 1 / s->width_weight_factor : 0;
    const Tol tw{1e-6, 1e-5};
    for (unsigned j = 0; j < l.length; j++) {
      const at_spline_type &g = l.data[j];
      unsigned n = (j + 1) % np;
      bool cu = g.degree == AT_CUBICTYPE;
      same_point(q.p[j], g.v[0].x / w, g.v[0].y / h, t, at(i, j) + " start");
      same_point(q.p[n], g.v[3].x / w, g.v[3].y / h, t, at(i, j) + " end");
      same_point(q.out[j], g.v[cu ? 1 : 0].x / w, g.v[cu ? 1 : 0].y / h, t, at(i, j) + " outgoing control point");
      same_point(q.in[n], g.v[cu ? 2 : 3].x / w, g.v[cu ? 2 : 3].y / h, t, at(i, j) + " incoming control point");
      if (weights) {
        REQUIRE(tw.ok(q.wp[j], g.v[0].z * k), "weights", "%s: width %g written for %g", at(i, j).c_str(), q.wp[j], g.v[0].z * k);
        REQUIRE(tw.ok(q.wp[n], g.v[3].z * k), "weights", "%s: end width %g written for %g", at(i, j).c_str(), q.wp[n], g.v[3].z * k);
        REQUIRE(tw.ok(q.wout[j], g.v[cu ? 1 : 0].z * k), "weights", "%s: outgoing width %g written for %g", at(i, j).c_str(), q.wout[j], g.v[cu ? 1 : 0].z * k);
        REQUIRE(tw.ok(q.win[n], g.v[cu ? 2 : 3].z * k), "weights", "%s: incoming width %g written for %g", at(i, j).c_str(), q.win[n], g.v[cu ? 2 : 3].z * k);
      }
    }
    if (l.open) {  // nothing beyond the ends
      same_point(q.in[0], l.data[0].v[0].x / w, l.data[0].v[0].y / h, t, sfmt("control point before list %u", i));
      same_point(q.out[np - 1], l.data[l.length - 1].v[3].x / w, l.data[l.length - 1].v[3].y / h, t, sfmt("control point after list %u", i));
    }
    for (size_t a = 0; a < q.corr.size(); a++) {
      REQUIRE(a == 0 || q.corr[a] >= q.corr[a - 1], "correspondence", "list %u: correspondence points go back", i);
      REQUIRE(q.corr[a] >= 0 && q.corr[a] <= (double)np, "correspondence", "list %u: correspondence point %g of %zu", i, q.corr[a], np);
    }
  }
}

const std::vector<std::string> kExact{"svg", "sk", "eps", "ai", "epd", "p2e", "pdf", "pov", "er"};
void w01(Ctx &c) {
  Curves k;
  CurveOpts o;
  o.huge = true;
  std::string fmt = c.pick(kExact);
  o.center = fmt != "pov";  // refused by design
  gen_curves(c, k, o);
  std::string name = gen_name(c);
  c.note(fmt + " named \"" + name + "\": " + show(k.s, 60));
  uint64_t before = hash_splines(k.s);
  Msgs m;
  std::string f = write_mem(fmt.c_str(), k.s, name.c_str(), nullptr, &m);
  REQUIRE(m.fatal == 0 && m.warning == 0, "message", "writing reports \"%s\"", m.last.c_str());
  REQUIRE(hash_splines(k.s) == before, "curves-changed", "writing changed the curves");
  c.note("file: " + f.substr(0, 3000));
  const Tol g6{1e-6, 5.1e-6}, f3{5.1e-4, 1e-7};
  if (fmt == "svg") same_drawing(read_svg(f), k.s, Tol{1e-6 + 1e-7 * k.s->height, 5.1e-6}, true, true, 2);
  else if (fmt == "sk") same_drawing(read_sk(f), k.s, g6, false, false, 1, false);
  else if (fmt == "eps" || fmt == "ai" || fmt == "p2e") same_drawing(read_ps(f), k.s, f3, false, true, 2);
  else if (fmt == "epd") same_drawing(read_epd(f), k.s, f3, false, true);
  else if (fmt == "pdf") same_drawing(read_pdf(f), k.s, f3, false, true);
  else if (fmt == "pov") same_pov(read_pov(f), k.s, f3);
  else same_er(read_er(f), k.s);
  c.label(fmt.c_str());
  if (k.s->length) c.nontrivial(eng::hash_str(fmt, before));
}
static eng::Reg reg_w01({"W01", "curves traced from a generated picture or built by hand (lines and cubics, open and closed lists, many colours, coordinates of several kinds, pictures up to 65535 pixels) written in one of nine formats and read back by an independent reader (for EPS and P2E an interpreter of the PostScript the file holds); non-trivial: there are curves; distinct by format and curves", w01, 40000, 600000, 20, {"POV output of centre-line curves is refused by design; only the refusal is checked", "open lists occur only in centre-line curves, as in traced ones", "file names hold no line breaks"}});
}  // namespace

namespace {
// ------------------------------------------------------------ W02
// How one format shows curves as lines.
struct Quant {
  double e = 0;        // a vertex is at most so far from its curve
  bool own = true;     // every list is an object of its own
  std::function<double(const at_spline_type &)> gap;  // longest step along a curve, as a share of it
  bool clip = false;   // points are moved into the box
  double x0 = 0, y0 = 0, x1 = 0, y1 = 0;
  bool offs = false;   // control points of the vertices follow the ends' tangents
};
double bend(const at_spline_type &g) {  // largest second derivative
  auto dd = [&](int a, int b, int c) { return std::hypot(g.v[a].x - 2 * g.v[b].x + g.v[c].x, g.v[a].y - 2 * g.v[b].y + g.v[c].y); };
  return 6 * std::max(dd(0, 1, 2), dd(1, 2, 3));
}
double hull(const at_spline_type &g) {
  double n = 0;
  for (int q = 0; q < 3; q++) n += std::hypot(g.v[q + 1].x - g.v[q].x, g.v[q + 1].y - g.v[q].y);
  return n;
}
struct Flat {  // a piece cut finely
  std::vector<P2> pt;
  double err = 0;
  bool clipped = false;
  Flat(const at_spline_type &g, const Quant &z) {
    int n = 1;
    if (g.degree == AT_CUBICTYPE) n = 64, err = bend(g) / (8 * 64 * 64);
    for (int k = 0; k <= n; k++) pt.push_back(eval(g, (double)k / n));
    if (z.clip && n > 1 && std::any_of(pt.begin(), pt.end(), [&](P2 p) { return p.x < z.x0 || p.x > z.x1 || p.y < z.y0 || p.y > z.y1; })) {
      pt.clear();
      clipped = true;
      for (int k = 0; k <= 1024; k++) pt.push_back(eval(g, k / 1024.));
    }
    if (z.clip)
      for (P2 &p : pt) p.x = std::min(std::max(p.x, z.x0), z.x1), p.y = std::min(std::max(p.y, z.y0), z.y1);
  }
  double dist(P2 p) const {
    double d = 1e30;
    for (size_t k = 0; k + 1 < pt.size(); k++) d = std::min(d, dist_ps(p, Seg{pt[k], pt[k + 1]}));
    return d - err;
  }
};
bool near_ray(P2 q, const at_real_coord &a, const at_real_coord &b, double e) {
  double dx = b.x - a.x, dy = b.y - a.y, l = std::hypot(dx, dy), px = q.x - a.x, py = q.y - a.y;
  if (l == 0) return std::hypot(px, py) <= e;
  double along = (px * dx + py * dy) / l;
  return along >= -e && std::fabs(px * dy - py * dx) / l <= e;
}
// Vertices of q up to which the piece may reach, starting at vertex v.
std::set<int> step(const Poly &q, int v, const at_spline_type &g, const Quant &z) {
  std::set<int> to;
  Flat fl(g, z);
  P2 end{g.v[3].x, g.v[3].y};
  bool cu = g.degree == AT_CUBICTYPE;
  double cover = z.e;
  if (cu) {
    double s = z.gap(g);
    cover += bend(g) * s * s / 8 + fl.err;
    if (fl.clipped) cover += s * hull(g) * 3;  // a step across the border of the box
  }
  for (int w = v; w < (int)q.v.size(); w++) {
    if (w > v) {
      if (fl.dist(q.v[w]) > z.e) break;
      if (!q.off.empty() && !q.off[w].empty()) {
        if (!cu) break;
        if (z.offs && w - v > 2) break;
        if (z.offs && !(w - v == 1 ? near_ray(q.off[w][0], g.v[0], g.v[1], z.e) : near_ray(q.off[w][0], g.v[3], g.v[2], z.e))) break;
      }
    }
    if (std::hypot(q.v[w].x - end.x, q.v[w].y - end.y) > z.e) continue;
    bool ok = true;
    for (size_t k = 0; k < fl.pt.size() && ok; k++) {
      double d = std::hypot(fl.pt[k].x - q.v[v].x, fl.pt[k].y - q.v[v].y);
      for (int u = v; u < w && d > cover; u++) d = std::min(d, dist_ps(fl.pt[k], Seg{q.v[u], q.v[u + 1]}));
      ok = d <= cover;
    }
    if (ok) to.insert(w);
  }
  return to;
}
std::set<int> walk(const Poly &q, int v, const at_spline_list_type &l, const Quant &z, unsigned &got) {
  std::set<int> at;
  if (std::hypot(q.v[v].x - l.data[0].v[0].x, q.v[v].y - l.data[0].v[0].y) <= z.e) at.insert(v);
  for (unsigned j = 0; j < l.length && !at.empty(); j++) {
    got = std::max(got, j);
    std::set<int> next;
    for (int u : at)
      for (int w : step(q, u, l.data[j], z)) next.insert(w);
    at.swap(next);
  }
  if (!at.empty()) got = l.length;
  return at;
}
// Every list in order; color(q, i) throws unless polyline q has list i's colour.
void same_polys(const Polys &d, const at_splines_type *s, const Quant &z, const std::function<bool(const Poly &, unsigned)> &color) {
  if (z.own) {
    REQUIRE(d.p.size() == s->length, "lists", "%u lists are written as %zu objects", s->length, d.p.size());
    for (unsigned i = 0; i < s->length; i++) {
      const Poly &q = d.p[i];
      unsigned got = 0;
      auto at = walk(q, 0, s->data[i], z, got);
      int last = (int)q.v.size() - 1;
      bool ok = at.count(last) != 0;
      if (!ok && q.back) {
        Poly r = q;
        r.v.push_back(r.v[0]);
        ok = walk(r, 0, s->data[i], z, got).count(last + 1) != 0;
      }
      REQUIRE(ok, "curve", "the object written for list %u leaves it at piece %u (resolution %g)", i, got, z.e);
      REQUIRE(color(q, i), "colour", "list %u has another colour in the file", i);
    }
    return;
  }
  std::set<std::pair<int, int>> at{{-1, 0}};
  for (unsigned i = 0; i < s->length; i++) {
    std::set<std::pair<int, int>> next;
    unsigned got = 0;
    bool off_color = false;
    for (auto [p, v] : at) {
      std::vector<std::pair<int, int>> starts;
      if (p >= 0) starts.push_back({p, v});
      int n = p + 1;
      if (p < 0 || v == (int)d.p[p].v.size() - 1) {
        for (; n < (int)d.p.size(); n++) {
          starts.push_back({n, 0});
          if (d.p[n].v.size() > 1) break;
        }
      }
      for (auto [a, b] : starts) {
        auto to = walk(d.p[a], b, s->data[i], z, got);
        if (to.empty()) continue;
        if (!color(d.p[a], i)) {
          off_color = true;
          continue;
        }
        for (int w : to) next.insert({a, w});
      }
    }
    REQUIRE(!next.empty() || !off_color, "colour", "list %u has another colour in the file", i);
    REQUIRE(!next.empty(), "curve", "list %u is not in the file where expected; piece %u is not there (resolution %g)", i, got, z.e);
    at.swap(next);
  }
  bool done = false;
  for (auto [p, v] : at) {
    bool end = p < 0 ? true : v == (int)d.p[p].v.size() - 1;
    for (int n = p + 1; n < (int)d.p.size(); n++) end = end && d.p[n].v.size() == 1;
    done = done || end;
  }
  REQUIRE(done, "extra", "more is drawn than the lists");
}
const at_color &shown(const at_splines_type *s, unsigned i) { return s->data[i].clockwise && s->background_color ? *s->background_color : s->data[i].color; }
bool rgb_is(const Poly &q, const at_color &c, int slack = 0) { return std::abs(q.rgb[0] - c.r) <= slack && std::abs(q.rgb[1] - c.g) <= slack && std::abs(q.rgb[2] - c.b) <= slack; }
std::vector<double> aci(int i) {  // colour of a DXF colour index
  static const double prim[8][3] = {{0, 0, 0}, {255, 0, 0}, {255, 255, 0}, {0, 255, 0}, {0, 255, 255}, {0, 0, 255}, {255, 0, 255}, {255, 255, 255}};
  if (i < 8) return {prim[i][0], prim[i][1], prim[i][2]};
  if (i < 10) return {255, 255, 255};
  if (i >= 250) {
    static const double g[6] = {84, 119, 153, 187, 222, 255};
    return {g[i - 250], g[i - 250], g[i - 250]};
  }
  static const double val[5] = {1, .65, .5, .3, .15};
  double hue = (i / 10 - 1) * 15., v = 255 * val[i % 10 / 2], s = i % 2 ? .5 : 1;
  std::vector<double> r(3);
  for (int k = 0; k < 3; k++) {
    double h = std::fmod(hue / 60 + (k == 0 ? 5 : k == 1 ? 3 : 1), 6);
    r[k] = v * (1 - s * std::max(0., std::min({h, 4 - h, 1.})));
  }
  return r;
}
double color_dist(const std::vector<double> &a, const at_color &c) { return std::sqrt((a[0] - c.r) * (a[0] - c.r) + (a[1] - c.g) * (a[1] - c.g) + (a[2] - c.b) * (a[2] - c.b)); }

void check_size(const Polys &d, double w, double h) {
  REQUIRE(d.has_size, "size", "no picture size");
  REQUIRE(d.x0 == 0 && d.y0 == 0 && std::fabs(d.x1 - w) <= d.size_res && std::fabs(d.y1 - h) <= d.size_res, "size", "picture of %gx%g stated as (%g, %g)..(%g, %g)", w, h, d.x0, d.y0, d.x1, d.y1);
}
size_t ild_points(const at_splines_type *s) {  // more than will be written
  double u = 65535. / std::max(s->width, s->height), n = 200;
  for (unsigned i = 0; i < s->length; i++)
    for (unsigned j = 0; j < s->data[i].length; j++) n += 14 + 2.5 * hull(s->data[i].data[j]) * u / 800 + (j ? 0 : 150);
  return (size_t)n;
}
double total_hull(const at_splines_type *s) {
  double n = 0;
  for (unsigned i = 0; i < s->length; i++)
    for (unsigned j = 0; j < s->data[i].length; j++) n += hull(s->data[i].data[j]);
  return n;
}
size_t fig_colors(const at_splines_type *s) {
  std::set<unsigned> u;
  for (unsigned i = 0; i < s->length; i++) u.insert(shown(s, i).r << 16 | shown(s, i).g << 8 | shown(s, i).b);
  return u.size();
}
const std::vector<std::string> kQuant{"fig", "mif", "dxf", "plt", "ugs", "emf", "cgm", "dr2d", "ild"};
// Reads a quantising format back; with `curves` also compares it with the curves.
void check_quant(const std::string &fmt, const std::string &f, const at_splines_type *s, double dpi, const std::string &name, bool curves) {
  const double w = s->width, h = s->height;
  Quant z;
  z.gap = [](const at_spline_type &) { return 1.; };
  double fl = 2e-7 * std::max(w, h);
  if (fmt == "emf") {
    Drawing d = read_emf(f);
    if (curves) same_drawing(d, s, Tol{1 + 2 * fl, 0}, true, true, 0, false, true);
  } else if (fmt == "cgm") {
    std::string got;
    Drawing d = read_cgm(f, &got);
    REQUIRE(got == name, "name", "file name \"%s\" written as \"%s\"", name.c_str(), got.c_str());
    // stated as lower left and upper right corner with y downwards
    REQUIRE(d.x0 == 0 && d.y1 == 0 && d.x1 == w && d.y0 == h, "size", "picture of %gx%g stated as (%g, %g)..(%g, %g)", w, h, d.x0, d.y0, d.x1, d.y1);
    if (curves) same_drawing(d, s, Tol{1 + 2 * fl, 0}, true, false, 1, false, true);
  } else if (fmt == "dr2d") {
    Drawing d = read_dr2d(f, w, h);
    double res = d.extra["res"], rel = d.extra["rel"];
    REQUIRE(std::fabs(d.x1 - w) <= res + rel * w && std::fabs(d.y1 - h) <= res + rel * h, "size", "picture of %gx%g stated as %gx%g", w, h, d.x1, d.y1);
    if (curves) same_drawing(d, s, Tol{res + rel * std::max(w, h) + fl, 0}, true, false, 1, false, true);
  } else if (fmt == "fig") {
    Polys d = read_fig(f);
    if (!curves) return;
    for (Poly &q : d.p)
      for (P2 &p : q.v) p.y = h - p.y;
    z.e = 1.4143 / 15 + 4 * fl;
    z.gap = [](const at_spline_type &) { return 1. / 4; };
    same_polys(d, s, z, [&](const Poly &q, unsigned i) { return rgb_is(q, shown(s, i)); });
    struct Box {
      double x0, y0, x1, y1;
    };
    std::vector<Box> box;
    for (unsigned i = 0; i < s->length; i++) {
      const Poly &q = d.p[i];
      const at_spline_list_type &l = s->data[i];
      if (q.has_fill) REQUIRE(q.fill == !stroked(s, l), "paint", "list %u is %s", i, q.fill ? "filled instead of stroked" : "stroked instead of filled");
      if (q.fill) REQUIRE(q.closed, "closed", "filled list %u is left open", i);
      double sx = l.data[0].v[0].x, sy = l.data[0].v[0].y, ex = l.data[l.length - 1].v[3].x, ey = l.data[l.length - 1].v[3].y;
      if (!q.fill && std::hypot(sx - ex, sy - ey) > .5) REQUIRE(!q.closed, "closed", "open list %u is closed", i);
      Box b{sx, sy, sx, sy};
      for (unsigned j = 0; j < l.length; j++) b.x0 = std::min(b.x0, (double)l.data[j].v[0].x), b.x1 = std::max(b.x1, (double)l.data[j].v[0].x), b.y0 = std::min(b.y0, (double)l.data[j].v[0].y), b.y1 = std::max(b.y1, (double)l.data[j].v[0].y);
      REQUIRE(i == 0 || q.depth <= d.p[i - 1].depth, "depth", "list %u lies below the one before", i);
      if (s->length < 900)
        for (unsigned k = 0; k < i; k++)
          if (b.x0 < box[k].x1 && b.x1 > box[k].x0 && b.y0 < box[k].y1 && b.y1 > box[k].y0) REQUIRE(q.depth < d.p[k].depth, "depth", "list %u does not lie above list %u, which it overlaps", i, k);
      box.push_back(b);
    }
  } else if (fmt == "mif") {
    Polys d = read_mif(f);
    double u = 72 / dpi;
    check_size(d, w * u, h * u);
    if (!curves) return;
    // the writer's y is one pixel down; either is accepted, but for all points alike
    double off = 1;
    if (s->length && !d.p.empty() && std::fabs(h - d.p[0].v[0].y / u - s->data[0].data[0].v[0].y) < .5) off = 0;
    for (Poly &q : d.p)
      for (P2 &p : q.v) p.x /= u, p.y = h + off - p.y / u;
    z.e = 1.4143 * .00501 / u + 4 * fl;
    z.gap = [](const at_spline_type &) { return 2 / 7. + 1e-3; };
    same_polys(d, s, z, [&](const Poly &q, unsigned i) { return rgb_is(q, shown(s, i), 6); });
    for (unsigned i = 0; i < s->length; i++) {
      const Poly &q = d.p[i];
      REQUIRE(q.fill == !stroked(s, s->data[i]), "paint", "list %u is %s", i, q.fill ? "filled instead of stroked" : "stroked instead of filled");
      REQUIRE(q.closed == q.fill, "closed", "list %u is %s", i, q.closed ? "closed" : "open");
    }
    // colours that differ must stay apart as far as their names tell
    for (unsigned i = 0; i < s->length; i++) {
      const at_color &c = shown(s, i);
      bool plain = (c.r == 0 || c.r == 255) && (c.g == 0 || c.g == 255) && (c.b == 0 || c.b == 255);
      if (plain) REQUIRE(rgb_is(d.p[i], c), "colour", "list %u of colour %02x%02x%02x is written as (%d, %d, %d)", i, c.r, c.g, c.b, d.p[i].rgb[0], d.p[i].rgb[1], d.p[i].rgb[2]);
    }
  } else if (fmt == "dxf") {
    Polys d = read_dxf(f);
    check_size(d, w, h);
    if (!curves) return;
    z.e = 2e-4 + 2 * fl;
    z.own = false;
    z.gap = [](const at_spline_type &g) { return std::min(1., 1.5 / std::max(1., std::floor(hull(g) - .01))); };
    same_polys(d, s, z, [&](const Poly &q, unsigned i) {
      const at_color &c = shown(s, i);
      double best = 1e9;
      for (int k = 1; k < 256; k++) best = std::min(best, color_dist(aci(k), c));
      return color_dist(aci(q.id), c) <= best + 45;
    });
  } else if (fmt == "plt") {
    Polys d = read_plt(f);
    check_size(d, w, h);
    REQUIRE(std::fabs(d.extra["ipx"] - w * 1016 / 120) <= 1 + 1e-6 * w * 9 && std::fabs(d.extra["ipy"] - h * 1016 / 120) <= 1 + 1e-6 * h * 9, "size", "picture of %gx%g plotted in %gx%g", w, h, d.extra["ipx"], d.extra["ipy"]);
    if (!curves) return;
    z.e = 1.4143 + 2 * fl;
    z.gap = [](const at_spline_type &) { return 1. / 6; };
    std::map<unsigned, int> pen;
    same_polys(d, s, z, [&](const Poly &q, unsigned i) {
      const at_color &c = s->data[i].color;
      unsigned u = c.r << 16 | c.g << 8 | c.b;
      auto [it, fresh] = pen.insert({u, q.id});
      if (!fresh && it->second != q.id) return false;
      static const std::map<unsigned, int> fixed{{0, 1}, {0xff0000, 2}, {0xff00, 3}, {0xffff00, 4}, {0xff, 5}, {0xffff, 7}};
      auto k = fixed.find(u);
      return k == fixed.end() || k->second == q.id;
    });
  } else if (fmt == "ugs") {
    Polys d = read_ugs(f);
    double x0 = 0, y0 = 0, x1 = -1, y1 = 0;
    for (const Poly &q : d.p)
      for (size_t k = 0; k < q.v.size(); k++) {
        std::vector<P2> all{q.v[k]};
        all.insert(all.end(), q.off[k].begin(), q.off[k].end());
        for (P2 p : all) x0 = std::min(x0, p.x), y0 = std::min(y0, p.y), x1 = std::max(x1, p.x), y1 = std::max(y1, p.y);
      }
    double lb = d.extra["left-bearing"], up = d.extra["advance-width"] - d.extra["right-bearing"] - 1, as = d.extra["ascend"] - 1, de = d.extra["descend"];
    REQUIRE(lb <= x0 && de <= y0 && up >= x1 && as >= y1, "metrics", "points within (%g, %g)..(%g, %g), stated metrics (%g, %g)..(%g, %g)", x0, y0, x1, y1, lb, de, up, as);
    if (!curves) return;
    z.e = .70712 + 2 * fl;
    z.offs = true;
    same_polys(d, s, z, [](const Poly &, unsigned) { return true; });
  } else if (fmt == "ild") {
    Polys d = read_ild(f);
    if (!curves) return;
    double u = 65535. / std::max(w, h);
    for (Poly &q : d.p)
      for (P2 &p : q.v) p.x = p.x / u + w / 2, p.y = p.y / u + h / 2;
    z.e = 1.6 / u + 2 * fl;
    z.clip = true;
    z.x0 = w / 2 - 32768 / u, z.x1 = w / 2 + 32767 / u, z.y0 = h / 2 - 32768 / u, z.y1 = h / 2 + 32767 / u;
    z.own = false;
    z.gap = [u](const at_spline_type &g) { return std::min(1., 1. / std::max(1., std::floor((hull(g) * u - 2) / 800))); };
    std::map<unsigned, int> idx;
    same_polys(d, s, z, [&](const Poly &q, unsigned i) {
      const at_color &c = s->data[i].color;
      if (!rgb_is(q, c)) return false;
      unsigned v = c.r << 16 | c.g << 8 | c.b;
      auto [it, fresh] = idx.insert({v, q.id});
      if (!fresh && it->second != q.id) return false;
      static const std::map<unsigned, std::vector<int>> fixed{{0xffffff, {1}}, {0xff0000, {2, 74}}, {0xffff00, {3}}, {0xff00, {4}}, {0xffff, {5}}, {0xff, {6}}, {0xff00ff, {7}}};
      auto k = fixed.find(v);
      return k == fixed.end() || k->second.size() > 1 || k->second[0] == q.id;
    });
  }
}
void w02(Ctx &c) {
  Curves k;
  CurveOpts o;
  std::string fmt = c.pick(kQuant);
  o.huge = c.chance(1, 2);
  gen_curves(c, k, o);
  if (fmt == "ild")  // black is not drawn by a laser
    for (unsigned i = 0; i < k.s->length; i++) {
      at_color &q = k.s->data[i].color;
      if (!q.r && !q.g && !q.b) q.b = 1;
    }
  if ((fmt == "ild" && ild_points(k.s) > 60000) || (fmt == "fig" && fig_colors(k.s) > 500) || ((fmt == "cgm" || fmt == "emf") && (k.s->width > 32000 || k.s->height > 32000))) {
    c.label("beyond the format");
    c.count("excluded_beyond_format", 1);
    return;
  }
  if (fmt == "dxf" && total_hull(k.s) > 30000) {  // one vertex per pixel: too long to compare
    c.label("too long to compare");
    return;
  }
  std::string name = gen_name(c);
  at_output_opts_type *oo = at_output_opts_new();
  static const std::vector<int> dpis{72, 72, 36, 100, 144, 300, 1200};
  oo->dpi = c.pick(dpis);
  c.note(fmt + sfmt(" dpi %d named \"", oo->dpi) + name + "\": " + show(k.s, 60));
  uint64_t before = hash_splines(k.s);
  Msgs m;
  std::string f = write_mem(fmt.c_str(), k.s, name.c_str(), oo, &m);
  double dpi = oo->dpi;
  at_output_opts_free(oo);
  REQUIRE(m.fatal == 0 && m.warning == 0, "message", "writing reports \"%s\"", m.last.c_str());
  REQUIRE(hash_splines(k.s) == before, "curves-changed", "writing changed the curves");
  if (fmt != "emf" && fmt != "cgm" && fmt != "dr2d" && fmt != "ild") c.note("file: " + f.substr(0, 3000));
  check_quant(fmt, f, k.s, dpi, name, true);
  c.label(fmt.c_str());
  if (k.s->length) c.nontrivial(eng::hash_str(fmt, before));
}
static eng::Reg reg_w02({"W02", "curves traced from a generated picture or built by hand (lines and cubics, open and closed lists, holes, many colours, pictures up to 65535 pixels) written in one of nine quantising formats and read back by an independent strict reader; non-trivial: there are curves; distinct by format and curves", w02, 40000, 600000, 20, {"ILDA output is given no black curves (a laser draws no black) and no more than 60000 points, FIG no more than 500 colours, CGM and EMF no pictures beyond 32000 pixels", "HPGL pens and DXF layers are compared with the standard palettes within a distance"}});

// ------------------------------------------------------------ W05
void w05(Ctx &c) {
  GfCase k = gen_gf(c);
  auto it = k.glyph.begin();
  std::advance(it, c.choose(k.glyph.size()));
  int code = it->first;
  const Image &g = it->second;
  const Image &full = k.full[code];
  if ((size_t)full.w * full.h > 8000) {
    c.count("excluded_large_glyph", 1);
    return;
  }
  auto put = [&](size_t at, uint32_t v) {
    for (int i = 0; i < 4; i++) k.file[at + i] = v >> (24 - 8 * i);
  };
  // sizes, resolutions and advances of many magnitudes
  uint32_t ds = c.coin() ? (uint32_t)c.range(1, 100) << 20 : (uint32_t)c.range(1 << 16, 100 << 20);
  uint32_t hp = (uint32_t)c.range(1 << 14, 40 << 16), vp = c.coin() ? hp : (uint32_t)c.range(1 << 14, 40 << 16);
  put(k.post + 5, ds);
  put(k.post + 13, hp);
  put(k.post + 17, vp);
  const GfCase::Place &pl = k.place[code];
  double adv = pl.esc;
  if (k.file[pl.loc] == 245) {
    int lo = c.chance(1, 4) ? -3000 : 0;
    int32_t e = c.coin() ? (int32_t)c.range(lo, 3000) * 65536 : (int32_t)c.range(lo * 65536, 3000 * 65536);
    put(pl.loc + 2, e);
    adv = e / 65536.;
  }
  // other characters read before, some of them absent
  std::vector<int> before;
  for (int n = c.weighted({3, 2, 1}); n > 0; n--) {
    auto o = k.glyph.begin();
    std::advance(o, c.choose(k.glyph.size()));
    before.push_back(c.chance(1, 3) ? (int)c.range(0, 255) : o->first);
  }
  init_lib();
  at_fitting_opts_type *to = at_fitting_opts_new();
  to->centerline = c.chance(1, 4);
  if (c.coin()) to->corner_always_threshold = (float)c.real(1, 180);
  if (c.coin()) to->error_threshold = (float)c.real(.2, 8);
  c.note(sfmt("gf character %d: design size %g, resolution %g %g, advance %g, ink from column %d row %d; %zu others read before", code, ds / 1048576., hp / 65536., vp / 65536., adv, pl.min_col, pl.min_row, before.size()) + ", glyph " + g.dump());
  at_input_opts_type *o = at_input_opts_new();
  for (int b : before) {
    o->charcode = b;
    Msgs m;
    at_bitmap *q = read_bytes(c, "gf", k.file, m, o);
    at_bitmap_free(q);
  }
  o->charcode = code;
  Msgs m;
  at_bitmap *b = read_bytes(c, "gf", k.file, m, o);
  at_input_opts_free(o);
  int want = code ? code : k.glyph.begin()->first;
  REQUIRE(m.fatal == 0, "refused", "valid character refused: %s", m.last.c_str());
  if (g.w == 0) {
    c.label("blank glyph");
    at_bitmap_free(b);
    at_fitting_opts_free(to);
    return;
  }
  at_splines_type *s = at_splines_new_full(b, to, msg_cb, &m, nullptr, nullptr, nullptr, nullptr);
  at_bitmap_free(b);
  at_fitting_opts_free(to);
  REQUIRE(s && m.fatal == 0, "message", "tracing reports \"%s\"", m.last.c_str());
  std::string f = write_mem("ugs", s, "glyph", nullptr, &m);
  REQUIRE(m.fatal == 0 && m.warning == 0, "message", "writing reports \"%s\"", m.last.c_str());
  c.note("file: " + f.substr(0, 2000));
  Polys d = read_ugs(f);
  REQUIRE(d.extra["code"] == want, "code", "character %d is written as %g", want, d.extra["code"]);
  double px = ds / 1048576. * (vp / 65536.);
  REQUIRE(std::fabs(d.extra["design-size"] - px) <= .5 + 1e-6 * px, "design-size", "a design size of %g pixels is written as %g", px, d.extra["design-size"]);
  REQUIRE(std::fabs(d.extra["advance-width"] - adv) <= .5, "advance", "an advance of %g pixels is written as %g", adv, d.extra["advance-width"]);
  double ix0 = pl.min_col, iy0 = pl.min_row, ix1 = ix0 + g.w - 1, iy1 = iy0 + g.h - 1;
  double x0 = ix0, y0 = iy0, x1 = ix1, y1 = iy1;
  for (Poly &q : d.p)
    for (size_t i = 0; i < q.v.size(); i++) {
      std::vector<P2> all{q.v[i]};
      all.insert(all.end(), q.off[i].begin(), q.off[i].end());
      for (P2 p : all) x0 = std::min(x0, p.x), y0 = std::min(y0, p.y), x1 = std::max(x1, p.x), y1 = std::max(y1, p.y);
    }
  double lb = d.extra["left-bearing"], up = d.extra["advance-width"] - d.extra["right-bearing"] - 1, as = d.extra["ascend"] - 1, de = d.extra["descend"];
  REQUIRE(lb == x0 && de == y0 && up == x1 && as == y1, "metrics", "ink and points within (%g, %g)..(%g, %g), stated metrics (%g, %g)..(%g, %g)", x0, y0, x1, y1, lb, de, up, as);
  for (Poly &q : d.p)
    for (size_t i = 0; i < q.v.size(); i++) {
      q.v[i].x -= ix0, q.v[i].y -= iy0;
      for (P2 &p : q.off[i]) p.x -= ix0, p.y -= iy0;
    }
  Quant z;
  z.gap = [](const at_spline_type &) { return 1.; };
  z.e = .70712 + 1e-3;
  z.offs = true;
  same_polys(d, s, z, [](const Poly &, unsigned) { return true; });
  if (!before.empty()) c.label("other characters read before");
  if (s->length) c.nontrivial(eng::hash_bytes(k.file.data(), k.file.size(), code));
  at_splines_free(s);
}
static eng::Reg reg_w05({"W05", "a character of a generated GF font (placed anywhere around the origin, drawn design size, resolutions and advance) read, possibly after other characters, traced and written as UGS; non-trivial: there are curves; distinct by file bytes and code", w05, 20000, 300000, 20, {"glyph boxes above 8000 pixels are left out for time and counted"}});

// ------------------------------------------------------------ W03
size_t user_colors(const at_splines_type *s) {  // beyond the eight that FIG knows by itself
  std::set<unsigned> u;
  for (unsigned i = 0; i < s->length; i++) {
    const at_color &q = shown(s, i);
    auto plain = [](int v) { return v == 0 || v == 255; };
    if (!(plain(q.r) && plain(q.g) && plain(q.b))) u.insert(q.r << 16 | q.g << 8 | q.b);
  }
  return u.size();
}
void w03_file(const std::string &fmt, const std::string &f, const at_splines_type *s, double dpi, const std::string &name) {
  REQUIRE(!f.empty() || (fmt == "pov" && !s->length), "empty", "nothing is written");
  if (std::find(kQuant.begin(), kQuant.end(), fmt) != kQuant.end()) {
    check_quant(fmt, f, s, dpi, name, false);
    return;
  }
  if (fmt == "er") {
    ErFile e = read_er(f);
    REQUIRE(e.w == s->width && e.h == s->height, "size", "picture of %ux%u stated as %dx%d", s->width, s->height, e.w, e.h);
    REQUIRE(e.shapes.size() == s->length, "lists", "%u lists are written as %zu shapes", s->length, e.shapes.size());
    return;
  }
  Drawing d = fmt == "svg" ? read_svg(f) : fmt == "sk" ? read_sk(f) : fmt == "epd" ? read_epd(f) : fmt == "pdf" ? read_pdf(f) : fmt == "pov" ? read_pov(f) : read_ps(f);
  size_t subs = 0, want = s->length;
  for (const Paint &p : d.paints) subs += p.subs.size();
  if (fmt == "pov") {
    want = 0;
    for (unsigned i = 0; i < s->length; i++) want += s->data[i].length;
  }
  REQUIRE(subs == want, "lists", "%zu paths instead of %zu", subs, want);
  if (fmt != "sk" && fmt != "pov") REQUIRE(d.has_size && d.x0 == 0 && d.y0 == 0 && d.x1 == s->width && d.y1 == s->height, "size", "picture of %ux%u stated as (%g, %g)..(%g, %g)", s->width, s->height, d.x0, d.y0, d.x1, d.y1);
}
void w03(Ctx &c) {
  Curves k;
  CurveOpts o;
  std::vector<std::string> all = kExact;
  all.insert(all.end(), kQuant.begin(), kQuant.end());
  std::string fmt = c.pick(all);
  o.huge = true;
  int size = c.weighted({6, 2, 1});
  o.maxlists = size == 0 ? 10 : size == 1 ? 80 : 3;
  o.maxpieces = size == 0 ? 8 : size == 1 ? 5 : 600;
  gen_curves(c, k, o);
  std::string name = gen_name(c);
  at_output_opts_type *oo = at_output_opts_new();
  static const std::vector<int> dpis{72, 72, 36, 100, 144, 300, 1200};
  oo->dpi = c.pick(dpis);
  double dpi = oo->dpi;
  c.note(fmt + sfmt(" dpi %d named \"", oo->dpi) + name + "\": " + show(k.s, 60));
  if (fmt == "ild" && ild_points(k.s) > 60000) {
    c.count("excluded_ild_count", 1);
    at_output_opts_free(oo);
    return;
  }
  if (fmt == "cgm" && (k.s->width > 32000 || k.s->height > 32000)) {
    c.count("excluded_wide_16bit", 1);
    at_output_opts_free(oo);
    return;
  }
  if (fmt == "dxf" && total_hull(k.s) > 1e6) {  // one vertex per pixel
    c.count("excluded_long_dxf", 1);
    at_output_opts_free(oo);
    return;
  }
  Msgs m;
  std::string f = write_mem(fmt.c_str(), k.s, name.c_str(), oo, &m);
  at_output_opts_free(oo);
  bool too_many = fmt == "fig" && user_colors(k.s) > 512;
  if (fmt == "pov" && k.s->centerline) {
    REQUIRE(m.fatal && f.empty(), "message", "centre lines, which the format does not support, are not refused");
    c.label("refused pov");
    return;
  }
  REQUIRE((m.fatal != 0) == too_many && m.warning == 0, "message", "writing %zu colours reports \"%s\"", user_colors(k.s), m.last.c_str());
  w03_file(fmt, f, k.s, dpi, name);
  c.label(fmt.c_str());
  if (too_many) c.label("too many colours");
  c.nontrivial(eng::hash_str(fmt, hash_splines(k.s)));
}
static eng::Reg reg_w03({"W03", "curves traced or built by hand (none, few, up to 600 lists or up to 600 pieces in a list, pictures up to 65535 pixels, odd and long file names, several resolutions) written in any of the 18 formats and read by a strict reader that checks every stated length, count, offset, index and box against the contents; non-trivial: a file was written and read; distinct by format and curves", w03, 40000, 600000, 30, {"ILDA files of more than 60000 points are excluded and counted (known finding ild-count)", "CGM pictures beyond 32000 pixels are excluded and counted (known finding wide-16bit)", "DXF output of curves longer than a million pixels is excluded and counted for time", "POV output of centre-line curves is refused by design; only the refusal is checked"}});
// Known finding: ILDA counts points in 16 bits.
bool ild_count(Ctx &) {
  init_lib();
  at_splines_type *s = (at_splines_type *)calloc(1, sizeof *s);
  s->width = s->height = 800;
  s->length = 1600;
  s->data = (at_spline_list_type *)calloc(s->length, sizeof *s->data);
  for (unsigned i = 0; i < s->length; i++) {
    at_spline_list_type &l = s->data[i];
    l.color.r = 255;
    l.length = 1;
    l.data = (at_spline_type *)calloc(1, sizeof *l.data);
    l.data[0].degree = AT_LINEARTYPE;
    l.data[0].v[0].x = 0, l.data[0].v[0].y = (float)(i / 2.), l.data[0].v[3].x = 800, l.data[0].v[3].y = (float)(i / 2.);
  }
  Msgs m;
  std::string f = write_mem("ild", s, "x", nullptr, &m);
  at_splines_free(s);
  if (m.fatal) return false;
  read_ild(f);
  return false;
}
// Known finding: CGM and the curves of EMF hold coordinates in 16 bits.
bool wide(Ctx &) {
  init_lib();
  at_splines_type *s = (at_splines_type *)calloc(1, sizeof *s);
  s->width = 40000, s->height = 10;
  s->length = 1;
  s->data = (at_spline_list_type *)calloc(1, sizeof *s->data);
  at_spline_list_type &l = s->data[0];
  l.length = 2;
  l.data = (at_spline_type *)calloc(2, sizeof *l.data);
  l.data[0].degree = l.data[1].degree = AT_CUBICTYPE;
  l.data[0].v[1].x = 10000, l.data[0].v[2].x = 30000, l.data[0].v[2].y = 10, l.data[0].v[3].x = 40000, l.data[0].v[3].y = 10;
  for (int q = 0; q < 4; q++) l.data[1].v[q] = l.data[0].v[3 - q];
  bool shows = false;
  for (const char *fmt : {"cgm", "emf"}) {
    Msgs m;
    std::string f = write_mem(fmt, s, "x", nullptr, &m);
    if (m.fatal) continue;
    try {
      check_quant(fmt, f, s, 72, "x", true);
    } catch (...) {
      shows = true;
    }
  }
  at_splines_free(s);
  return shows;
}
static eng::RegF reg_wide({"W02", "wide-16bit", wide});
static eng::RegF reg_ild_count({"W03", "ild-count", ild_count});
}  // namespace
