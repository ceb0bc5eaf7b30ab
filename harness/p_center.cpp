// T04, T05: centre-line tracing.
#include "trace.h"
#include <algorithm>
#include <map>
#include <set>

namespace {
// chamfer distance to the nearest pixel that is white or outside the picture
double thickness(const Image &im, int x, int y) {
  double best = INFINITY;
  for (int v = -1; v <= im.h; v++)
    for (int u = -1; u <= im.w; u++) {
      bool out = u < 0 || v < 0 || u == im.w || v == im.h;
      if (!out && im.get(u, v) != RGB{255, 255, 255}) continue;
      int dx = std::abs(u - x), dy = std::abs(v - y);
      best = std::min(best, std::max(dx, dy) - std::min(dx, dy) + M_SQRT2 * std::min(dx, dy));
    }
  return best;
}

// strokes: polylines of various thickness, rings, letters-like crossings
Image gen_strokes(Ctx &c, int np, const std::vector<RGB> &pal) {
  int w = c.range(6, 48), h = c.range(6, 48);
  Image im(w, h, np);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) im.set(x, y, pal[0]);
  int n = c.range(1, 4);
  for (int k = 0; k < n; k++) {
    RGB col = pal.size() > 1 ? pal[1 + c.choose(pal.size() - 1)] : pal[0];
    double t = c.real(.4, 3.5), x0 = c.real(0, w), y0 = c.real(0, h);
    int m = c.range(1, 4);
    for (int i = 0; i < m; i++) {
      double x1 = c.real(0, w), y1 = c.real(0, h), L2 = (x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
          double px = x + .5, py = y + .5, u = L2 > 0 ? ((px - x0) * (x1 - x0) + (py - y0) * (y1 - y0)) / L2 : 0;
          u = std::min(1., std::max(0., u));
          if (std::hypot(px - x0 - u * (x1 - x0), py - y0 - u * (y1 - y0)) <= t) im.set(x, y, col);
        }
      x0 = x1, y0 = y1;
    }
  }
  return im;
}

struct CenterCase : TraceCase {
  RGB ebg{255, 255, 255};  // colour that counts as background
  bool widths = false;
};
void gen_center(Ctx &c, CenterCase &t) {
  gen_case(c, t, 40, Opt::plain);
  bool ink = c.chance(1, 3);
  if (ink || c.coin()) {
    int np = c.coin() ? 1 : 3;
    std::vector<RGB> pal = ink ? std::vector<RGB>{{255, 255, 255}, {0, 0, 0}} : gen_palette(c, c.range(2, 4), np == 1, true);
    t.im = c.chance(1, 3) ? gen_shapes(c, 1, 40, 1, 40, np, pal) : gen_strokes(c, np, pal);
    t.has_bg = !ink || c.coin();
    if (t.has_bg) t.fo.bg(t.bg = pal[0]);
    else {
      at_color_free(t.fo->background_color);
      t.fo->background_color = nullptr;
    }
    if (ink) {
      // black on white throughout, so line widths are defined
      t.widths = true;
      t.fo->preserve_width = c.chance(2, 3);
      t.fo->width_weight_factor = c.pick(std::vector<float>{6, 1, 2.5, .5});
    }
  }
  t.fo->centerline = true;
  if (t.has_bg) t.ebg = t.bg;
}

void t04(Ctx &c) {
  CenterCase t;
  gen_center(c, t);
  Image &im = t.im;
  c.note(im.dump());
  c.note(show(t.fo.o));
  Msgs m;
  Image thin;
  Splines s(trace(im, t.fo.o, m, &thin));
  REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  c.note("skeleton " + thin.dump());
  c.note(show(s.s));
  REQUIRE(s->centerline, "settings", "the result does not say that it holds centre lines");
  REQUIRE(s->width == im.w && s->height == im.h, "size", "result says %ux%u", s->width, s->height);
  if (im.np == 1 && !(t.ebg.r == t.ebg.g && t.ebg.g == t.ebg.b)) {
    c.label("coloured background for a grey picture");
    return;
  }
  double e = t.fo->error_threshold, l = t.fo->line_threshold, sm = t.fo->filter_iterations ? .75 + .35 * t.fo->filter_iterations : 0;
  double wz = t.fo->preserve_width ? 2 * e + 2 : 0;  // widths take part in the fit
  double LA = e + l + 1.5 + sm + wz, LB = 2 * e + l + 1.5 + 2 * sm + wz;
  std::map<uint32_t, std::vector<Seg>> pts, cur;
  for (int y = 0; y < im.h; y++)
    for (int x = 0; x < im.w; x++)
      if (im.get(x, y) != t.ebg) {
        P2 p{(double)x, (double)im.h - y - 1};
        pts[im.get(x, y).u()].push_back({p, p});
      }
  std::map<uint32_t, SegIndex> pi;
  for (auto &k : pts) pi.emplace(k.first, SegIndex(k.second));
  for (unsigned i = 0; i < s->length; i++) {
    auto &li = s->data[i];
    REQUIRE(li.length > 0, "empty-list", "stroke %u has no curves", i);
    uint32_t col = RGB{li.color.r, li.color.g, li.color.b}.u();
    REQUIRE(col != t.ebg.u(), "background-stroke", "stroke %u has the background colour", i);
    REQUIRE(pi.count(col), "colour", "stroke %u has colour %06x, which does not occur", i, col);
    for (unsigned j = 0; j + 1 < li.length; j++) REQUIRE(li.data[j].v[3].x == li.data[j + 1].v[0].x && li.data[j].v[3].y == li.data[j + 1].v[0].y, "disconnected", "stroke %u breaks after curve %u", i, j);
    if (!li.open) {
      auto &a = li.data[li.length - 1].v[3], &b = li.data[0].v[0];
      REQUIRE(a.x == b.x && a.y == b.y, "disconnected", "stroke %u is marked closed, but starts at (%g,%g) and ends at (%g,%g)", i, b.x, b.y, a.x, a.y);
    }
    auto p = flatten(li);
    for (size_t j = 0; j < p.size(); j++) {
      REQUIRE(std::isfinite(p[j].x) && std::isfinite(p[j].y), "not-finite", "stroke %u has a point that is not finite", i);
      if (j + 1 < p.size()) cur[col].push_back({p[j], p[j + 1]});
      P2 q = j + 1 < p.size() ? P2{(p[j].x + p[j + 1].x) / 2, (p[j].y + p[j + 1].y) / 2} : p[j];
      double d = std::max(pi.at(col).nearest(p[j]), pi.at(col).nearest(q));
      REQUIRE(d <= LA, "stroke-astray", "stroke %u passes near (%g,%g), %g pixels from the shape; allowed is %g", i, p[j].x, p[j].y, d, LA);
    }
    for (unsigned j = 0; j < li.length; j++)
      for (int q : {0, 1, 2, 3}) {
        auto &v = li.data[j].v[q];
        if (!t.fo->preserve_width) {
          REQUIRE(li.data[j].degree == AT_LINEARTYPE && (q == 1 || q == 2) ? true : v.z == 0, "width", "stroke %u has width %g although widths are off", i, v.z);
          continue;
        }
        if (q == 1 || q == 2 || t.fo->filter_iterations || !t.widths) continue;
        int x = (int)v.x, y = im.h - 1 - (int)v.y;
        REQUIRE(x == v.x && x >= 0 && y >= 0 && x < im.w && y < im.h, "stroke-astray", "stroke %u: end point (%g,%g) is not a pixel", i, v.x, v.y);
        double want = 0;
        for (int b = std::max(0, y - 1); b <= std::min(im.h - 1, y + 1); b++)
          for (int a = std::max(0, x - 1); a <= std::min(im.w - 1, x + 1); a++)
            if (im.get(a, b) != RGB{255, 255, 255}) want = std::max(want, thickness(im, a, b));
        want *= t.fo->width_weight_factor;
        REQUIRE(std::fabs(v.z - want) <= 1e-3 * (1 + want), "width", "stroke %u at x=%d row=%d: width %g, the shape's local thickness gives %g", i, x, y, v.z, want);
        c.count("widths checked", 1);
      }
  }
  std::vector<int> lab;
  int n = components(thin, true, lab);
  std::vector<int> size(n), near(n), junction(n), first(n, -1);
  for (int i = 0; i < im.w * im.h; i++) {
    if (thin.get(i % im.w, i / im.w) == t.ebg) continue;
    int nb = 0, x = i % im.w, y = i / im.w;
    for (int v = std::max(0, y - 1); v <= std::min(im.h - 1, y + 1); v++)
      for (int u = std::max(0, x - 1); u <= std::min(im.w - 1, x + 1); u++) nb += lab[v * im.w + u] == lab[i];
    if (nb > 3) junction[lab[i]] = 1;
    size[lab[i]]++;
    if (first[lab[i]] < 0) first[lab[i]] = i;
  }
  std::map<uint32_t, SegIndex> ci;
  for (auto &k : cur) ci.emplace(k.first, SegIndex(k.second));
  int big = 0, paths = 0;
  for (int i = 0; i < im.w * im.h; i++) {
    RGB q = thin.get(i % im.w, i / im.w);
    if (q == t.ebg || size[lab[i]] < 2) continue;
    auto it = ci.find(q.u());
    double d = it == ci.end() ? INFINITY : it->second.nearest({(double)(i % im.w), (double)(im.h - 1 - i / im.w)});
    if (d <= LB) near[lab[i]] = 1;
    REQUIRE(junction[lab[i]] || d <= LB, "line-lost", "skeleton pixel x=%d row=%d of an unbranched line is %g pixels from every stroke; allowed is %g", i % im.w, i / im.w, d, LB);
  }
  for (int i = 0; i < n; i++) {
    if (size[i] < 2) continue;
    REQUIRE(near[i], "component-lost", "the component at x=%d row=%d has no stroke", first[i] % im.w, first[i] / im.w);
    big++;
    paths += !junction[i] && size[i] > 4;
  }
  if (paths) c.label("unbranched lines");
  if (t.fo->preserve_width) c.label("widths kept");
  c.label(t.has_bg ? "background given" : "default background");
  if (big) c.nontrivial(eng::hash_str(show(t.fo.o), im.hash()));
}

// connected components of the pixels for which in() holds; outside counts as out
template <class F> int count_comp(int w, int h, bool eight, F in) {
  std::vector<char> seen(w * h, 0);
  std::vector<int> st;
  int n = 0;
  for (int i = 0; i < w * h; i++) {
    if (seen[i] || !in(i % w, i / w)) continue;
    n++;
    seen[i] = 1;
    st.push_back(i);
    while (!st.empty()) {
      int k = st.back(), x = k % w, y = k / w;
      st.pop_back();
      for (int dy = -1; dy <= 1; dy++)
        for (int dx = -1; dx <= 1; dx++) {
          int u = x + dx, v = y + dy;
          if ((!eight && dx && dy) || u < 0 || v < 0 || u >= w || v >= h || seen[v * w + u] || !in(u, v)) continue;
          seen[v * w + u] = 1;
          st.push_back(v * w + u);
        }
    }
  }
  return n;
}

// A straight bar: its skeleton runs along its middle, nearly as long as the bar.
void t05_bar(Ctx &c) {
  init_lib();
  bool gray = c.coin();
  RGB bg = gray ? RGB{255, 255, 255} : gen_color(c), fg = gen_color(c);
  FitOpts fo;
  fo->centerline = true;
  if (!gray || c.coin()) fo.bg(bg);
  if (gray) fg.g = fg.b = fg.r;
  if (fg == bg) fg.r ^= 128, fg.g ^= 128, fg.b ^= 128;
  double w = c.real(1, 14), len = w * c.real(3, 6) + 4, ang = c.chance(1, 3) ? c.choose(8) * M_PI / 4 : c.real(0, M_PI);
  double ca = std::cos(ang), sa = std::sin(ang);
  int n = (int)std::ceil(len * std::fabs(ca) + w * std::fabs(sa)) + 6, m = (int)std::ceil(len * std::fabs(sa) + w * std::fabs(ca)) + 6;
  double cx = n / 2. + c.real(-1, 1), cy = m / 2. + c.real(-1, 1);
  Image im(n, m, gray ? 1 : 3);
  auto along = [&](int x, int y) { return (x + .5 - cx) * ca + (y + .5 - cy) * sa; };
  auto across = [&](int x, int y) { return (y + .5 - cy) * ca - (x + .5 - cx) * sa; };
  double a0 = 1e9, a1 = -1e9;
  for (int y = 0; y < m; y++)
    for (int x = 0; x < n; x++) {
      bool in = std::fabs(along(x, y)) <= len / 2 && std::fabs(across(x, y)) <= w / 2 && x && y && x < n - 1 && y < m - 1;
      im.set(x, y, in ? fg : bg);
      if (in) a0 = std::min(a0, along(x, y)), a1 = std::max(a1, along(x, y));
    }
  c.note(sfmt("bar of width %g, length %g at %g degrees\n", w, len, ang * 180 / M_PI) + im.dump());
  Msgs msg;
  Image thin;
  Splines s(trace(im, fo.o, msg, &thin));
  REQUIRE(s.s && !msg.fatal, "no-result", "tracing gave no result: %s", msg.last.c_str());
  c.note("skeleton " + thin.dump());
  double b0 = 1e9, b1 = -1e9;
  for (int y = 0; y < m; y++)
    for (int x = 0; x < n; x++) {
      if (thin.get(x, y) != fg) continue;
      double a = along(x, y), d = across(x, y);
      b0 = std::min(b0, a), b1 = std::max(b1, a);
      if (std::fabs(a) <= len / 2 - w) REQUIRE(std::fabs(d) <= 1.5, "off-centre", "skeleton pixel x=%d row=%d is %g pixels from the middle of the bar", x, y, std::fabs(d));
    }
  REQUIRE(b0 <= a0 + w + 2 && b1 >= a1 - w - 2, "shortened", "the bar reaches from %g to %g, its skeleton from %g to %g", a0, a1, b0, b1);
  c.label("straight bars");
  if (w > 2) c.nontrivial(im.hash());
}
void t05(Ctx &c) {
  if (c.chance(1, 6)) return t05_bar(c);
  CenterCase t;
  gen_center(c, t);
  Image &im = t.im;
  c.note(im.dump());
  c.note(show(t.fo.o));
  Msgs m;
  Image thin, again;
  {
    Splines s(trace(im, t.fo.o, m, &thin));
    REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  }
  c.note("skeleton " + thin.dump());
  RGB bg = t.ebg;
  if (im.np == 1 && !(bg.r == bg.g && bg.g == bg.b)) {
    at_color q{bg.r, bg.g, bg.b};
    uint8_t l = at_color_luminance(&q);
    bg = RGB{l, l, l};
  }
  std::set<uint32_t> cols;
  size_t removed = 0;
  for (int y = 0; y < im.h; y++)
    for (int x = 0; x < im.w; x++) {
      RGB a = im.get(x, y), b = thin.get(x, y);
      if (a != bg) cols.insert(a.u());
      REQUIRE(b == a || b == bg, "recoloured", "x=%d row=%d: %06x became %06x", x, y, a.u(), b.u());
      removed += a != b;
    }
  int solid = 0;
  for (uint32_t col : cols) {
    auto before = [&](int x, int y) { return im.get(x, y).u() == col; };
    auto after = [&](int x, int y) { return thin.get(x, y).u() == col; };
    int a = count_comp(im.w, im.h, true, before), b = count_comp(im.w, im.h, true, after);
    REQUIRE(a == b, b < a ? "component-lost" : "component-split", "colour %06x has %d connected parts, its skeleton %d", col, a, b);
    // holes: areas of other pixels, with a frame of one pixel around the picture
    auto hole = [&](bool (*)(int), auto f) { return count_comp(im.w + 2, im.h + 2, false, [&](int x, int y) { return x == 0 || y == 0 || x > im.w || y > im.h || !f(x - 1, y - 1); }); };
    int ha = hole(nullptr, before), hb = hole(nullptr, after);
    REQUIRE(ha == hb, hb < ha ? "hole-lost" : "hole-made", "colour %06x encloses %d areas, its skeleton %d", col, ha - 1, hb - 1);
    // no solid block of the colour is left away from the border
    for (int y = 1; y + 1 < im.h; y++)
      for (int x = 1; x + 1 < im.w; x++) {
        int k = 0;
        for (int v = -1; v <= 1; v++)
          for (int u = -1; u <= 1; u++) k += after(x + u, y + v);
        if (k == 9) REQUIRE(false, "not-thin", "colour %06x: a solid 3x3 block is left at x=%d row=%d", col, x, y);
      }
    solid++;
  }
  Splines s(trace(thin, t.fo.o, m, &again));
  REQUIRE(again.d == thin.d, "not-finished", "thinning the skeleton again changes it");
  if (cols.size() > 1) c.label("several colours");
  c.label(im.np == 1 ? "grey" : "colour");
  if (removed) c.nontrivial(eng::hash_str(show(t.fo.o), im.hash()));
}
const std::vector<std::string> as = {"pictures up to 48x48", "the skeleton is read from the caller's bitmap after tracing"};
eng::Reg r4({"T04", "the skeleton has a component of two or more pixels", t04, 30000, 400000, 20, as});
eng::Reg r5({"T05", "thinning removed at least one pixel", t05, 30000, 400000, 20, as});
}  // namespace
