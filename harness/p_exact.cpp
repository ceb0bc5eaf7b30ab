// T09: shapes with long straight edges are traced exactly.
#include "trace.h"
#include <algorithm>
#include <set>

namespace {
void t09(Ctx &c) {
  init_lib();
  TraceCase t;
  at_fitting_opts_type *f = t.fo.o;
  if (c.chance(2, 3)) {
    f->corner_surround = c.range(1, 8);
    f->corner_always_threshold = c.real(0, 80);
    f->tangent_surround = c.range(1, 8);
    f->error_threshold = c.real(.1, 8);
    f->line_threshold = c.real(.1, 4);
    f->line_reversion_threshold = c.real(.005, 2);
    f->filter_iterations = c.range(0, 12);
    f->remove_adjacent_corners = c.coin();
  }
  bool with_bg = c.chance(3, 5);
  if (c.chance(2, 3)) {
    // The outline of a hole starts one step behind a corner.  That point is taken for a corner
    // instead when its angle is below the threshold, so the threshold stays below it.
    double a = 180 - std::atan((f->corner_surround - 1) / 2.) * 180 / M_PI;
    f->corner_threshold = c.real(91, with_bg ? std::min(170., a - 1) : 170);
  }
  f->preserve_width = c.coin();
  // cells of a coarse grid; every edge of a shape is at least `lo` long
  int lo = 2 * f->corner_surround + 3, hi = lo + (c.chance(1, 4) ? 30 : 6);
  int nx = c.range(1, 5), ny = c.range(1, 5);
  bool gray = c.chance(1, 3);
  auto pal = gen_palette(c, c.range(2, 4), gray, true);
  std::vector<int> xs{0}, ys{0};
  if (c.chance(1, 60)) hi = lo + 400, nx = std::min(nx, 3), ny = std::min(ny, 2), c.label("big picture");
  for (int i = 0; i < nx; i++) xs.push_back(xs.back() + c.range(lo, hi));
  for (int i = 0; i < ny; i++) ys.push_back(ys.back() + c.range(lo, hi));
  if (c.chance(1, 250)) {  // one very long strip
    auto &v = c.coin() ? xs : ys;
    int far = c.range(1000, 7000);
    for (size_t i = c.range(1, v.size() - 1); i < v.size(); i++) v[i] += far;
    (&v == &xs ? ny : nx) = 1;
    (&v == &xs ? ys : xs).resize(2);
    c.label("long strip");
  }
  t.im = Image(xs.back(), ys.back(), gray ? 1 : 3);
  for (int j = 0; j < ny; j++)
    for (int i = 0; i < nx; i++) {
      RGB q = c.pick(pal);
      for (int y = ys[j]; y < ys[j + 1]; y++)
        for (int x = xs[i]; x < xs[i + 1]; x++) t.im.set(x, y, q);
    }
  if (with_bg) {
    t.has_bg = true;
    t.bg = c.chance(5, 6) ? pal[0] : gen_color(c);
    if (gray && t.bg.r != t.bg.g) t.bg.g = t.bg.b = t.bg.r;
    t.fo.bg(t.bg);
  }
  Image &im = t.im;
  c.note(sfmt("%dx%d np=%d, columns at", im.w, im.h, im.np));
  for (int x : xs) c.note(sfmt(" %d", x));
  c.note("rows at");
  for (int y : ys) c.note(sfmt(" %d", y));
  for (int j = 0; j < ny; j++) {
    std::string l;
    for (int i = 0; i < nx; i++) l += sfmt(" %06x", im.get(xs[i], ys[j]).u());
    c.note(l);
  }
  c.note(show(f));
  Msgs m;
  Splines s(trace(im, f, m));
  REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  c.note(show(s.s));
  const RGB *bg = t.has_bg ? &t.bg : nullptr;
  std::vector<char> skip(im.w * im.h, 0);
  if (bg) skip = mixed_hole(im, *bg);
  size_t excluded = 0;
  std::vector<int> paint(im.w * im.h, -1);
  for (unsigned i = 0; i < s->length; i++) {
    at_spline_list_type &l = s->data[i];
    std::vector<P2> p;
    for (unsigned j = 0; j < l.length; j++) {
      at_spline_type &g = l.data[j], &n = l.data[(j + 1) % l.length];
      REQUIRE(g.degree == AT_LINEARTYPE, "curve", "list %u piece %u is a curve along a straight edge", i, j);
      double x = g.v[0].x, y = g.v[0].y, dx = g.v[3].x - x, dy = g.v[3].y - y;
      REQUIRE(x == std::floor(x) && y == std::floor(y), "corner", "list %u piece %u starts at (%g,%g), not at a pixel corner", i, j, x, y);
      REQUIRE((dx == 0) != (dy == 0), "corner", "list %u piece %u from (%g,%g) to (%g,%g) does not follow an edge", i, j, x, y, g.v[3].x, g.v[3].y);
      double ex = n.v[3].x - n.v[0].x, ey = n.v[3].y - n.v[0].y;
      REQUIRE(dx * ey - dy * ex != 0, "corner", "list %u: the edge is cut at (%g,%g)", i, g.v[3].x, g.v[3].y);
      p.push_back({x, y});
    }
    for (int y = 0; y < im.h; y++)
      for (int x = 0; x < im.w; x++)
        if (inside(p, {x + .5, im.h - y - .5})) paint[y * im.w + x] = l.clockwise ? -1 : (int)RGB{l.color.r, l.color.g, l.color.b}.u();
  }
  for (int k = 0; k < im.w * im.h; k++) {
    if (skip[k]) {
      excluded++;
      continue;
    }
    RGB q = im.get(k % im.w, k / im.w);
    int want = bg && q == *bg ? -1 : (int)q.u();
    REQUIRE(paint[k] == want, "pixel", "pixel x=%d row=%d: painted %06x, bitmap has %06x%s", k % im.w, k / im.w, paint[k] & 0xffffff, q.u(), want == -1 ? " (background)" : "");
  }
  c.count("pixels excluded for mixed-hole", excluded);
  c.label(bg ? "background given" : "no background");
  size_t pieces = 0;
  for (unsigned i = 0; i < s->length; i++) pieces += s->data[i].length;
  if (pieces > s->length * 4) c.label("more than rectangles");
  if (s->length) c.nontrivial(eng::hash_str(show(f), im.hash()));
}
eng::Reg r9({"T09", "pictures of large cells on a coarse grid (edges at least twice the corner window plus three pixels), drawn colours and options; every list must consist of lines along the edges meeting in the shape's corners, and painting the lists must give every pixel its colour; non-trivial: there are shapes; distinct by picture and options", t09, 15000, 300000, 20, {"corner thresholds of 91 to 170 degrees and always-thresholds up to 80 degrees, so that right angles and nothing else are corners", "cells of five by five at most", "a hole clears what was painted before it", "with a background the corner threshold stays below the angle one pixel behind a corner, where the outlines of holes start"}});
}  // namespace
