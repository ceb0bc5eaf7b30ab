// T01, T02, T03: outline tracing.
#include "trace.h"
#include <algorithm>
#include <set>

void gen_case(Ctx &c, TraceCase &t, int maxdim, Opt o) {
  init_lib();
  bool gray = c.chance(1, 3);
  int np = gray ? 1 : 3;
  auto pal = gen_palette(c, c.range(1, 4), gray, true);
  switch (c.weighted({8, 2, 2, 1})) {
    case 0: t.im = gen_shapes(c, 1, maxdim, 1, maxdim, np, pal); break;
    case 1: t.im = gen_shapes(c, 1, 6, 1, 6, np, pal); break;
    case 2: {  // a few colours placed at random: corners meeting everywhere
      t.im = Image(c.range(1, 12), c.range(1, 12), np);
      for (int y = 0; y < t.im.h; y++)
        for (int x = 0; x < t.im.w; x++) t.im.set(x, y, c.pick(pal));
      break;
    }
    default: t.im = gen_noise(c, 10, 10, np);
  }
  if (c.chance(3, 5)) {
    t.has_bg = true;
    int k = c.weighted({6, 2, 1});
    t.bg = k == 0 ? t.im.get(0, 0) : k == 1 ? t.im.get(c.range(0, t.im.w - 1), c.range(0, t.im.h - 1)) : gen_color(c);
    t.fo.bg(t.bg);
  }
  at_fitting_opts_type *f = t.fo.o;
  f->error_threshold = c.pick(std::vector<float>{2, 1, .5, .25, .1, 0});
  f->line_threshold = c.pick(std::vector<float>{1, .5, .1, 0});
  f->filter_iterations = c.chance(1, 3) ? c.range(1, 8) : 0;
  if (o == Opt::all || c.coin()) {
    f->corner_surround = c.range(0, 10);
    f->tangent_surround = c.range(0, 8);
    f->corner_threshold = c.real(0, 180);
    f->corner_always_threshold = c.real(0, 180);
    f->line_reversion_threshold = c.real(0, 2);
    f->remove_adjacent_corners = c.coin();
  }
  if (o == Opt::all) {
    if (c.chance(1, 4)) f->error_threshold = c.real(0, 30);
    if (c.chance(1, 4)) f->line_threshold = c.real(0, 30);
    if (c.chance(1, 8)) f->filter_iterations = c.range(0, 40);
    if (c.chance(1, 8)) f->corner_surround = c.range(0, 200);
    if (c.chance(1, 8)) f->tangent_surround = c.range(0, 200);
    f->charcode = c.range(0, 255);
    f->width_weight_factor = c.real(0, 10);
    f->preserve_width = c.chance(1, 4);
    f->despeckle_tightness = c.real(0, 8);
    f->noise_removal = c.real(0, 1);
  }
}

at_splines_type *trace(const Image &im, at_fitting_opts_type *o, Msgs &m, Image *after) {
  at_bitmap *b = to_bitmap(im);
  at_splines_type *s = at_splines_new(b, o, msg_cb, &m);
  if (after) *after = from_bitmap(b);
  at_bitmap_free(b);
  return s;
}

namespace {
// how far smoothing may move a curve
double smooth_slack(const at_fitting_opts_type *f) { return f->filter_iterations ? .75 + .35 * f->filter_iterations : 0; }

void t01(Ctx &c) {
  TraceCase t;
  gen_case(c, t, c.chance(1, 10) ? 90 : 44, Opt::plain);
  Image &im = t.im;
  c.note(im.dump());
  c.note(show(t.fo.o));
  Msgs m;
  Splines s(trace(im, t.fo.o, m));
  REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  c.note(show(s.s));
  const RGB *bg = t.has_bg ? &t.bg : nullptr;
  SegIndex bi(boundary(im, bg));
  double D = t.fo->error_threshold + t.fo->line_threshold + 1 + smooth_slack(t.fo.o);
  std::vector<char> skip(im.d.size(), 0);
  if (bg) skip = mixed_hole(im, *bg);
  // which pixels can be judged
  std::vector<int> judged;
  size_t excluded = 0, judged_bg = 0;
  std::set<uint32_t> cols;
  for (int i = 0; i < im.w * im.h; i++) {
    if (bi.nearest({i % im.w + .5, im.h - i / im.w - .5}) <= D) continue;
    if (skip[i]) {
      excluded++;
      continue;
    }
    judged.push_back(i);
    RGB q = im.get(i % im.w, i / im.w);
    if (bg && q == *bg) judged_bg++;
    else cols.insert(q.u());
  }
  c.count("pixels judged", judged.size());
  c.count("pixels excluded for mixed-hole", excluded);
  std::vector<int> paint(im.w * im.h, -1);
  for (unsigned i = 0; i < s->length; i++) {
    at_spline_list_type &l = s->data[i];
    auto p = flatten(l);
    double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
    for (auto &q : p) x0 = std::min(x0, q.x), x1 = std::max(x1, q.x), y0 = std::min(y0, q.y), y1 = std::max(y1, q.y);
    for (int k : judged) {
      P2 z{k % im.w + .5, im.h - k / im.w - .5};
      if (z.x < x0 || z.x > x1 || z.y < y0 || z.y > y1 || !inside(p, z)) continue;
      paint[k] = l.clockwise ? -1 : (int)RGB{l.color.r, l.color.g, l.color.b}.u();
    }
  }
  for (int k : judged) {
    RGB q = im.get(k % im.w, k / im.w);
    int want = bg && q == *bg ? -1 : (int)q.u();
    REQUIRE(paint[k] == want, paint[k] == -1 ? "unpainted" : want == -1 ? "background-painted" : "wrong-colour", "pixel x=%d row=%d: painted %06x, bitmap has %06x%s", k % im.w, k / im.w, paint[k] & 0xffffff, q.u(), want == -1 ? " (background)" : "");
  }
  c.label(bg ? "background given" : "no background");
  if (t.fo->filter_iterations) c.label("smoothed");
  if (judged_bg) c.label("background pixels judged");
  if (cols.size() >= 2) c.label("two or more colours judged");
  if (!cols.empty() && bi.s.size() > 8) c.nontrivial(eng::hash_str(show(t.fo.o), im.hash()));
}

// A bitmap without pixels has no shapes, whatever the options.
void t02_empty(Ctx &c) {
  init_lib();
  FitOpts fo;
  if (c.coin()) fo.bg(gen_color(c));
  fo->centerline = c.coin();
  fo->preserve_width = c.coin();
  fo->color_count = c.chance(1, 3) ? c.range(1, 256) : 0;
  fo->despeckle_level = c.chance(1, 3) ? c.range(1, 20) : 0;
  fo->filter_iterations = c.range(0, 8);
  int w = c.coin() ? 0 : c.range(1, 40), h = w && c.coin() ? 0 : w ? 0 : c.range(0, 40), np = c.coin() ? 1 : 3;
  c.note(sfmt("%dx%d np=%d ", w, h, np) + show(fo.o));
  Image im(w, h, np);
  at_bitmap *b = at_bitmap_new(w, h, np);
  Msgs m;
  Splines s(at_splines_new(b, fo.o, msg_cb, &m));
  at_bitmap_free(b);
  REQUIRE(s.s || m.fatal, "silent", "no result and no message");
  if (s.s) {
    REQUIRE(s->length == 0, "invented", "%u shapes from a bitmap without pixels", s->length);
    REQUIRE(s->width == w && s->height == h, "size", "result says %ux%u", s->width, s->height);
  }
  c.label("no pixels");
  c.nontrivial(eng::hash_str(show(fo.o), w * 64 + h));
}
void t02(Ctx &c) {
  if (c.chance(1, 60)) return t02_empty(c);
  TraceCase t;
  gen_case(c, t, c.chance(1, 10) ? 90 : 40, Opt::all);
  Image &im = t.im;
  c.note(im.dump());
  c.note(show(t.fo.o));
  Msgs m;
  Splines s(trace(im, t.fo.o, m));
  REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  c.note(show(s.s));
  REQUIRE(s->width == im.w && s->height == im.h, "size", "result says %ux%u", s->width, s->height);
  REQUIRE(!s->centerline && s->preserve_width == t.fo->preserve_width && s->width_weight_factor == t.fo->width_weight_factor, "settings", "line-mode or width settings differ from the options");
  REQUIRE(!!s->background_color == t.has_bg, "background", "background colour %s", t.has_bg ? "lost" : "invented");
  if (t.has_bg) {
    REQUIRE(s->background_color != t.fo->background_color, "background", "background colour shared with the options");
    RGB q{s->background_color->r, s->background_color->g, s->background_color->b};
    REQUIRE(q == t.bg, "background", "background colour %06x instead of %06x", q.u(), t.bg.u());
  }
  std::set<uint32_t> have, seen;
  for (int y = 0; y < im.h; y++)
    for (int x = 0; x < im.w; x++)
      if (!t.has_bg || im.get(x, y) != t.bg) have.insert(im.get(x, y).u());
  unsigned outer = 0, holes = 0;
  double D = 2 * t.fo->error_threshold + t.fo->line_threshold + 1.5 + smooth_slack(t.fo.o);
  double len_tol = t.fo->error_threshold + t.fo->line_threshold + 1 + smooth_slack(t.fo.o);
  for (unsigned i = 0; i < s->length; i++) {
    at_spline_list_type &l = s->data[i];
    REQUIRE(l.length > 0 && l.data, "empty-list", "list %u has no curves", i);
    REQUIRE(!l.open, "open", "list %u is marked open", i);
    uint32_t col = RGB{l.color.r, l.color.g, l.color.b}.u();
    REQUIRE(have.count(col), "colour", "list %u has colour %06x, which %s", i, col, t.has_bg && col == t.bg.u() ? "is the background" : "does not occur");
    for (unsigned j = 0; j < l.length; j++) {
      at_spline_type &p = l.data[j], &n = l.data[(j + 1) % l.length];
      REQUIRE(p.degree == AT_LINEARTYPE || p.degree == AT_CUBICTYPE, "degree", "list %u curve %u has degree %d", i, j, (int)p.degree);
      for (int k = 0; k < 4; k++) REQUIRE(std::isfinite(p.v[k].x) && std::isfinite(p.v[k].y), "not-finite", "list %u curve %u point %d is not finite", i, j, k);
      REQUIRE(p.v[3].x == n.v[0].x && p.v[3].y == n.v[0].y, "disconnected", "list %u: curve %u ends at (%g,%g), the next starts at (%g,%g)", i, j, p.v[3].x, p.v[3].y, n.v[0].x, n.v[0].y);
      for (int k : {0, 3}) REQUIRE(p.v[k].x >= 0 && p.v[k].y >= 0 && p.v[k].x <= im.w && p.v[k].y <= im.h, "outside", "list %u curve %u: end point (%g,%g) lies outside the picture", i, j, p.v[k].x, p.v[k].y);
    }
    auto p = flatten(l);
    double len = 0;
    for (size_t k = 0; k < p.size(); k++) {
      REQUIRE(p[k].x >= -D && p[k].y >= -D && p[k].x <= im.w + D && p[k].y <= im.h + D, "outside", "list %u passes (%g,%g), far outside the picture", i, p[k].x, p[k].y);
      P2 q = p[(k + 1) % p.size()];
      len += std::hypot(q.x - p[k].x, q.y - p[k].y);
    }
    double a = area(p);
    // orientation is meaningful when the shape is larger than what fitting may swallow
    if (std::fabs(a) > len * len_tol) {
      REQUIRE((a < 0) == !!l.clockwise, "orientation", "list %u runs %s but is marked %s", i, a < 0 ? "clockwise" : "counter-clockwise", l.clockwise ? "clockwise" : "counter-clockwise");
      c.count(l.clockwise ? "holes with judged orientation" : "outer boundaries with judged orientation", 1);
    }
    if (l.clockwise) holes++;
    else {
      outer++;
      seen.insert(col);
    }
  }
  REQUIRE(seen == have, "colour-lost", "%zu of %zu colours have an outline", seen.size(), have.size());
  REQUIRE(t.has_bg || !holes, "hole", "%u holes although no background was given", holes);
  // one outer boundary per region; where regions cross at a corner either may be split
  std::vector<int> l4, l8;
  components(im, false, l4), components(im, true, l8);
  std::set<int> r4, r8;
  for (int i = 0; i < im.w * im.h; i++)
    if (!t.has_bg || im.get(i % im.w, i / im.w) != t.bg) r4.insert(l4[i]), r8.insert(l8[i]);
  REQUIRE(outer >= r8.size() && outer <= r4.size(), "region-count", "%u outer boundaries for %zu (joined at corners: %zu) regions", outer, r4.size(), r8.size());
  c.label(t.has_bg ? "background given" : "no background");
  if (holes) c.label("with holes");
  if (outer > 5) c.label("more than five regions");
  if (s->length && (outer > 1 || s->data[0].length > 4)) c.nontrivial(eng::hash_str(show(t.fo.o), im.hash()));
}

// A picture of two or three colours divided by smooth waves and ovals.
void gen_waves(Ctx &c, TraceCase &t) {
  init_lib();
  bool gray = c.chance(1, 3);
  int w = c.range(24, 130), h = c.range(24, 90);
  auto pal = gen_palette(c, 3, gray, true);
  double a1 = c.real(0, h / 3.), a2 = c.real(0, h / 6.), f1 = c.real(.01, .2), f2 = c.real(.02, .3), p1 = c.real(0, 6.28), p2 = c.real(0, 6.28), sl = c.real(-1, 1);
  double cx = c.real(0, w), cy = c.real(0, h), ra = c.real(8, 60), rb = c.real(8, 60), th = c.real(0, 3.14);
  bool oval = c.coin();
  t.im = Image(w, h, gray ? 1 : 3);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      double dx = x + .5 - cx, dy = y + .5 - cy, u = (dx * cos(th) + dy * sin(th)) / ra, v = (dy * cos(th) - dx * sin(th)) / rb;
      int k = y + .5 > h / 2. + a1 * sin(x * f1 + p1) + a2 * sin(x * f2 + p2) + sl * (x - w / 2.);
      t.im.set(x, y, pal[oval && u * u + v * v < 1 ? 2 : k]);
    }
  if (c.coin()) t.has_bg = true, t.bg = pal[c.range(0, 2)], t.fo.bg(t.bg);
  at_fitting_opts_type *f = t.fo.o;
  f->error_threshold = c.pick(std::vector<float>{2, 1, .5, .25});
  f->line_threshold = c.pick(std::vector<float>{1, .5, .1, 0});
  f->filter_iterations = c.chance(1, 3) ? c.range(1, 8) : 0;
  if (c.coin()) f->corner_threshold = f->corner_always_threshold = -1;
  if (c.coin()) f->tangent_surround = c.range(1, 8);
  c.label("waves");
}

void t03(Ctx &c) {
  TraceCase t;
  bool waves = c.chance(1, 4);
  if (waves) gen_waves(c, t);
  else gen_case(c, t, c.chance(1, 10) ? 90 : 40, Opt::plain);
  Image &im = t.im;
  c.note(im.dump());
  c.note(show(t.fo.o));
  Msgs m;
  Splines s(trace(im, t.fo.o, m));
  REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  c.note(show(s.s));
  const RGB *bg = t.has_bg ? &t.bg : nullptr;
  SegIndex bi(boundary(im, bg));
  double e = t.fo->error_threshold, l = t.fo->line_threshold, sm = smooth_slack(t.fo.o);
  double LA = e + l + 1.5 + sm, LB = 2 * e + l + 1.5 + 2 * sm;
  if (!t.fo->filter_iterations) {
    // the points that are fitted lie on the boundary, knees (one pixel deep) excepted
    LA = std::max(1., e + 2 * l) + .6;
    LB = std::max(1., e + 2 * l) + 1.1;
  }
  std::vector<Seg> cs;
  double A = 0, B = 0;
  P2 wa{}, wb{};
  for (unsigned i = 0; i < s->length; i++) {
    auto p = flatten(s->data[i]);
    for (size_t k = 0; k + 1 < p.size(); k++) {
      cs.push_back({p[k], p[k + 1]});
      for (int q = 0; q < 4; q++) {
        P2 z{p[k].x + (p[k + 1].x - p[k].x) * q / 4, p[k].y + (p[k + 1].y - p[k].y) * q / 4};
        REQUIRE(std::isfinite(z.x) && std::isfinite(z.y), "not-finite", "list %u has a point that is not finite", i);
        double d = bi.nearest(z);
        if (d > A) A = d, wa = z;
      }
    }
  }
  REQUIRE(A <= LA, "curve-astray", "the curves pass (%g,%g), %g pixels from every boundary; allowed is %g", wa.x, wa.y, A, LA);
  SegIndex ci(cs);
  std::vector<char> skip;
  if (bg) skip = mixed_hole(im, *bg);
  size_t excluded = 0;
  for (auto &g : bi.s) {
    P2 mid{(g.a.x + g.b.x) / 2, (g.a.y + g.b.y) / 2};
    if (bg) {  // next to a pixel of the known finding
      bool ex = false;
      for (double o : {-.5, .5}) {
        int x = (int)std::floor(g.a.x == g.b.x ? mid.x + o : mid.x), y = im.h - 1 - (int)std::floor(g.a.x == g.b.x ? mid.y : mid.y + o);
        if (x >= 0 && y >= 0 && x < im.w && y < im.h && skip[y * im.w + x]) ex = true;
      }
      if (ex) {
        excluded++;
        continue;
      }
    }
    double d = ci.nearest(mid);
    if (d > B) B = d, wb = mid;
  }
  REQUIRE(B <= LB, "boundary-lost", "the boundary at (%g,%g) is %g pixels from every curve; allowed is %g", wb.x, wb.y, B, LB);
  c.count("boundary edges excluded for mixed-hole", excluded);
  c.label(t.fo->filter_iterations ? "smoothed" : "smoothing off");
  if (e <= .5 && l <= .5) c.label("tight thresholds");
  bool cubic = false;
  for (unsigned i = 0; i < s->length; i++)
    for (unsigned j = 0; j < s->data[i].length; j++) cubic |= s->data[i].data[j].degree == AT_CUBICTYPE;
  if (cubic) c.label("cubic curves");
  if (bi.s.size() > 8) c.nontrivial(eng::hash_str(show(t.fo.o), im.hash()));
}
// Known finding: a ring whose inside starts, in reading order, with a pixel of a
// third colour; the background below that pixel is enclosed by the ring.
bool mixed_hole_shows(Ctx &) {
  init_lib();
  const RGB W{255, 255, 255}, R{255, 0, 0}, B{0, 0, 255};
  Image im(40, 40, 3);
  for (int y = 0; y < 40; y++)
    for (int x = 0; x < 40; x++) {
      bool ring = x >= 2 && y >= 2 && x < 38 && y < 38, in = x >= 8 && y >= 8 && x < 32 && y < 32;
      im.set(x, y, ring && !in ? R : in && y < 14 ? B : W);
    }
  FitOpts fo;
  fo.bg(W);
  Msgs m;
  Splines s(trace(im, fo.o, m));
  if (!s.s) return false;
  bool painted = false;
  for (unsigned i = 0; i < s->length; i++)
    if (inside(flatten(s->data[i]), {20, 15})) painted = !s->data[i].clockwise;
  return painted;
}
eng::RegF f1({"T01", "mixed-hole", mixed_hole_shows}), f3({"T03", "mixed-hole", mixed_hole_shows});

const std::vector<std::string> as = {"pictures up to 90x90", "curves are sampled at quarter-pixel steps", "a hole clears what was painted before it"};
eng::Reg r1({"T01", "the picture has pixels of a traced colour further from every colour boundary than the tolerance, and more than one boundary square", t01, 30000, 400000, 20, as});
eng::Reg r2({"T02", "the result has several outer boundaries or a boundary of more than four curves", t02, 40000, 500000, 20, as});
eng::Reg r3({"T03", "the picture has more than eight boundary edges", t03, 30000, 400000, 20, as});
}  // namespace
