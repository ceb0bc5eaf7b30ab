// T10: smooth shapes are traced smoothly.
#include "trace.h"
#include <algorithm>
#include <array>

namespace {
double cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
double dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
P2 sub(const at_real_coord &a, const at_real_coord &b) { return {(double)a.x - b.x, (double)a.y - b.y}; }
double len(P2 a) { return std::hypot(a.x, a.y); }
double turn(P2 a, P2 b) { return std::fabs(std::atan2(cross(a, b), dot(a, b))) * 180 / M_PI; }

// direction of a piece at its start or end
P2 dir(const at_spline_type &s, bool end) {
  if (s.degree == AT_LINEARTYPE) return sub(s.v[3], s.v[0]);
  for (int k = 1; k <= 3; k++) {
    P2 d = end ? sub(s.v[3], s.v[3 - k]) : sub(s.v[k], s.v[0]);
    if (len(d) > 1e-3) return d;
  }
  return {0, 0};
}

void joins(Ctx &c) {
  TraceCase t;
  gen_case(c, t, 48, Opt::all);
  at_fitting_opts_type *f = t.fo.o;
  f->corner_threshold = f->corner_always_threshold = -1;
  f->centerline = c.chance(1, 4);
  if (c.coin()) f->error_threshold = c.real(.05, 1.5);
  c.note(show(f));
  Msgs m;
  Splines s(trace(t.im, f, m));
  REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  c.note(show(s.s));
  size_t n = 0;
  for (unsigned i = 0; i < s->length; i++) {
    at_spline_list_type &l = s->data[i];
    for (unsigned j = 0; j < l.length; j++) {
      if (l.open && j + 1 == l.length) break;
      if (l.length < 2) break;
      at_spline_type &g = l.data[j], &h = l.data[(j + 1) % l.length];
      if (g.degree != AT_CUBICTYPE || h.degree != AT_CUBICTYPE) continue;
      P2 a = sub(g.v[3], g.v[2]), b = sub(h.v[1], h.v[0]);
      double la = len(a), lb = len(b), big = std::max({std::fabs(g.v[3].x), std::fabs(g.v[3].y), std::fabs(g.v[2].x), std::fabs(g.v[2].y), std::fabs(h.v[1].x), std::fabs(h.v[1].y)});
      double e = 1e-6 * (big + 10);
      REQUIRE(std::fabs(cross(a, b)) <= e * (la + lb), "kink", "list %u: pieces %u and %u meet in (%g,%g) with different tangents: handles (%g,%g) and (%g,%g)", i, j, (j + 1) % l.length, g.v[3].x, g.v[3].y, a.x, a.y, b.x, b.y);
      if (la > .05 && lb > .05) n++;
    }
  }
  c.count("joins of curves", n);
  if (n) c.nontrivial(eng::hash_str(show(f), t.im.hash()));
  c.label(f->centerline ? "centre lines" : "outlines");
}

// A filled oval, perhaps with a smaller one cut out of it.
struct Oval {
  double cx, cy, ra, rb, th;
  bool has(double x, double y) const {
    double u = ((x - cx) * cos(th) + (y - cy) * sin(th)) / ra, v = (-(x - cx) * sin(th) + (y - cy) * cos(th)) / rb;
    return u * u + v * v <= 1;
  }
  // direction of the concentric similar oval through p, counterclockwise
  P2 tangent(P2 p) const {
    double u = (p.x - cx) * cos(th) + (p.y - cy) * sin(th), v = -(p.x - cx) * sin(th) + (p.y - cy) * cos(th);
    double tu = -v / rb / rb, tv = u / ra / ra;
    return {tu * cos(th) - tv * sin(th), tu * sin(th) + tv * cos(th)};
  }
  double ex() const { return std::hypot(ra * cos(th), rb * sin(th)); }
  double ey() const { return std::hypot(ra * sin(th), rb * cos(th)); }
};
Oval gen_oval(Ctx &c, double most) {
  Oval o;
  o.ra = c.real(8, most);
  // no end more pointed than a disc of five pixels
  o.rb = c.chance(1, 3) ? o.ra : c.real(std::max({8., o.ra / 3, std::sqrt(5 * o.ra)}), o.ra);
  o.th = c.real(0, 3.14159);
  return o;
}

void ovals(Ctx &c) {
  TraceCase t;
  at_fitting_opts_type *f = t.fo.o;
  if (c.chance(1, 2)) {
    f->filter_iterations = c.range(2, 8);
    f->error_threshold = c.real(1, 3);
    f->tangent_surround = c.range(2, 6);
    f->line_threshold = c.real(.2, 1);
    f->corner_surround = c.range(3, 6);
    f->corner_threshold = c.real(40, 100);
    f->remove_adjacent_corners = c.coin();
  }
  std::vector<Oval> os;
  os.push_back(gen_oval(c, c.chance(1, 20) ? 140 : 60));
  Oval &o = os[0];
  o.cx = o.ex() + c.real(1, 4), o.cy = o.ey() + c.real(1, 4);
  int w = (int)(o.cx + o.ex()) + 2, h = (int)(o.cy + o.ey()) + 2;
  if (o.rb >= 14 && c.chance(1, 3)) {
    Oval i = gen_oval(c, o.rb - 4);
    i.cx = o.cx + c.real(-1, 1), i.cy = o.cy + c.real(-1, 1);
    os.push_back(i);
    c.label("ring");
  }
  bool gray = c.coin();
  auto pal = gen_palette(c, 2, gray, true);
  Image &im = t.im = Image(w, h, gray ? 1 : 3);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      double px = x + .5, py = h - y - .5;
      im.set(x, y, pal[os[0].has(px, py) && !(os.size() > 1 && os[1].has(px, py))]);
    }
  t.fo.bg(pal[0]);
  for (Oval &v : os) c.note(sfmt("%dx%d oval at %g,%g radii %g %g turned %g", w, h, v.cx, v.cy, v.ra, v.rb, v.th));
  c.note(show(f));
  Msgs m;
  Splines s(trace(im, f, m));
  REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  c.note(show(s.s));
  REQUIRE(s->length == os.size(), "count", "%u lists for %zu outlines", s->length, os.size());
  for (unsigned i = 0; i < s->length; i++) {
    at_spline_list_type &l = s->data[i];
    const Oval &v = os[i];
    double most = v.rb < 16 ? 45 : 25;
    REQUIRE(l.length <= (v.ra <= 60 ? 16 : 24), "pieces", "list %u: %u pieces for one oval", i, l.length);
    for (unsigned j = 0; j < l.length; j++) {
      at_spline_type &g = l.data[j], &k = l.data[(j + 1) % l.length];
      REQUIRE(g.degree == AT_CUBICTYPE, "line", "list %u piece %u is a straight line on an oval", i, j);
      double a = turn(dir(g, true), dir(k, false));
      REQUIRE(a <= 1, "kink", "list %u: a kink of %g degrees at (%g,%g)", i, a, g.v[3].x, g.v[3].y);
      for (int q = 0; q <= 16; q++) {
        P2 p = eval(g, q / 16.), p0 = eval(g, std::max(0., q / 16. - .01)), p1 = eval(g, std::min(1., q / 16. + .01));
        P2 e = v.tangent(p);
        if (l.clockwise) e = {-e.x, -e.y};
        double d = turn(P2{p1.x - p0.x, p1.y - p0.y}, e);
        REQUIRE(d <= most, "direction", "list %u piece %u runs %g degrees off the oval at (%g,%g)", i, j, d, p.x, p.y);
      }
    }
  }
  c.label("ovals");
  c.nontrivial(eng::hash_str(show(f), im.hash()));
}
void t10(Ctx &c) {
  init_lib();
  if (c.chance(1, 2)) joins(c);
  else ovals(c);
}
eng::Reg r10({"T10", "half of the cases: pictures traced with all fitting options drawn and no corners asked for, where two adjoining curves must have handles on one line; half: filled ovals and rings of radius 8 and more, which must come out as at most 16 (large ones 24) curves each, without lines or kinks, running in the oval's direction; non-trivial: two curves with handles adjoin; distinct by picture and options", t10, 20000, 300000, 20, {"pictures up to 48x48 in the first half", "ovals with radii of 8 to 140 whose ends are no more pointed than a disc of five pixels", "error thresholds of 1 to 3 and corner thresholds up to 100 degrees for ovals"}});

void t11(Ctx &c) {
  init_lib();
  TraceCase t;
  gen_case(c, t, 48, Opt::all);
  at_fitting_opts_type *f = t.fo.o;
  bool whole = c.coin();  // no corners: every list is one curve
  if (whole) f->corner_threshold = f->corner_always_threshold = -1;
  if (c.coin()) f->error_threshold = c.real(.1, 6);
  f->line_threshold = c.real(.05, 4);
  f->line_reversion_threshold = c.pick(std::vector<double>{0, .01, .1, .3, 1, 4, 100});
  f->centerline = c.chance(1, 4);
  f->preserve_width = c.chance(1, 3);
  c.note(t.im.dump());
  c.note(show(f));
  Msgs m;
  Splines s(trace(t.im, f, m));
  REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  c.note(show(s.s));
  double lt = f->line_threshold, lr = f->line_reversion_threshold;
  size_t curves = 0, lines = 0, kept = 0;
  for (unsigned i = 0; i < s->length; i++) {
    at_spline_list_type &l = s->data[i];
    bool mixed = false;
    for (unsigned j = 0; j < l.length; j++) mixed |= l.data[j].degree == AT_CUBICTYPE;
    for (unsigned j = 0; j < l.length; j++) {
      at_spline_type &g = l.data[j];
      // the width of centre lines counts as a third coordinate
      auto at = [&](double u) {
        double v = 1 - u, b[4] = {v * v * v, 3 * v * v * u, 3 * v * u * u, u * u * u};
        std::array<double, 3> p{};
        for (int k = 0; k < 4; k++) p[0] += b[k] * g.v[k].x, p[1] += b[k] * g.v[k].y, p[2] += b[k] * g.v[k].z;
        return p;
      };
      auto p0 = at(0), p1 = at(1);
      double d[3], ll = 0, most = 0;
      for (int k = 0; k < 3; k++) d[k] = p1[k] - p0[k], ll += d[k] * d[k];
      if (g.degree == AT_LINEARTYPE) {
        lines++;
        REQUIRE(g.linearity == 0 || g.linearity < std::min(lt, ll / 2) * 1.0001 + 1e-5, "line", "list %u piece %u is a line although the curve was %g away from it", i, j, g.linearity);
        if (whole && mixed) {
          kept++;
          REQUIRE(g.linearity <= lr, "kept", "list %u piece %u stayed a line among curves although the curve was %g away from it", i, j, g.linearity);
        }
        continue;
      }
      if (ll < 1e-4) continue;
      curves++;
      for (int q = 1; q < 64; q++) {
        auto p = at(q / 64.);
        double w = 0, e = 0;
        for (int k = 0; k < 3; k++) w += d[k] * (p[k] - p0[k]) / ll;
        for (int k = 0; k < 3; k++) e += (p[k] - p0[k] - w * d[k]) * (p[k] - p0[k] - w * d[k]);
        most = std::max(most, std::sqrt(e));
      }
      // the average over at least four points, two of them the ends
      double want = std::min({lt, ll / 2, lr}), bulge = most * 4 / 3 + 1e-2 * most + 1e-3;
      REQUIRE(bulge >= want, "curve", "list %u piece %u from (%g,%g) to (%g,%g) is a curve although it is at most %g away from a straight line", i, j, g.v[0].x, g.v[0].y, g.v[3].x, g.v[3].y, most);
    }
  }
  c.label(lr >= lt ? "lines stay lines" : "lines among curves revert");
  c.label(!f->centerline ? "outlines" : f->preserve_width ? "centre lines with width" : "centre lines");
  if (kept) c.label("lines kept among curves");
  if (curves && lines) c.label("lines and curves");
  if (curves + lines) c.nontrivial(eng::hash_str(show(f), t.im.hash()));
}
eng::Reg r11({"T11", "pictures traced with all fitting options and the two line thresholds drawn, half of them without corners; every curve must bulge from its chord, every line must come from a curve close to it, and lines among curves from one still closer; non-trivial: there are pieces; distinct by picture and options", t11, 25000, 300000, 20, {"pictures up to 48x48", "how close the curve behind a line was is what the result says it was"}});
}  // namespace
