// T08: relations between traces of related pictures.
#include "trace.h"
#include <algorithm>
#include <map>
#include <set>

namespace {
Image as_rgb(const Image &im) {
  Image o(im.w, im.h, 3);
  for (int y = 0; y < im.h; y++)
    for (int x = 0; x < im.w; x++) o.set(x, y, im.get(x, y));
  return o;
}
RGB colour(const at_spline_list_type &l) { return {l.color.r, l.color.g, l.color.b}; }

// the same lists; colours of b are those of a renamed, coordinates those of a shifted
void same(at_splines_type *a, at_splines_type *b, const std::map<uint32_t, RGB> *ren, const char *kind) {
  REQUIRE(a->length == b->length, kind, "%u lists instead of %u", b->length, a->length);
  for (unsigned i = 0; i < a->length; i++) {
    auto &p = a->data[i], &q = b->data[i];
    RGB want = colour(p);
    if (ren) want = ren->at(want.u());
    REQUIRE(colour(q) == want, kind, "list %u has colour %06x instead of %06x", i, colour(q).u(), want.u());
    REQUIRE(p.length == q.length && p.clockwise == q.clockwise && p.open == q.open, kind, "list %u: %u curves instead of %u, or other flags", i, q.length, p.length);
    for (unsigned j = 0; j < p.length; j++) {
      REQUIRE(p.data[j].degree == q.data[j].degree, kind, "list %u curve %u has another degree", i, j);
      for (int k = 0; k < 4; k++) {
        if (p.data[j].degree == AT_LINEARTYPE && (k == 1 || k == 2)) continue;
        auto &u = p.data[j].v[k], &v = q.data[j].v[k];
        REQUIRE(u.x == v.x && u.y == v.y && u.z == v.z, kind, "list %u curve %u point %d is (%g,%g,%g) instead of (%g,%g,%g)", i, j, k, v.x, v.y, v.z, u.x, u.y, u.z);
      }
    }
  }
}

void clear_border(Image &im, RGB q) {
  for (int y = 0; y < im.h; y++)
    for (int x = 0; x < im.w; x++)
      if (!x || !y || x == im.w - 1 || y == im.h - 1) im.set(x, y, q);
}

// Known finding: in three planes, shapes are not thinned at the left, right and
// bottom border; in one plane they are.
bool planes_border_shows(Ctx &) {
  init_lib();
  Image im(12, 12, 1), a, b;
  std::fill(im.d.begin(), im.d.end(), 255);
  for (int y = 3; y < 12; y++)
    for (int x = 0; x < 6; x++) im.set(x, y, {0, 0, 0});
  FitOpts fo;
  fo->centerline = true;
  Msgs m;
  Splines s(trace(im, fo.o, m, &a)), t(trace(as_rgb(im), fo.o, m, &b));
  return as_rgb(a).d != b.d;
}
eng::RegF f8({"T08", "planes-border", planes_border_shows});

void t08(Ctx &c) {
  TraceCase t;
  gen_case(c, t, 40, Opt::all);
  t.fo->error_threshold = std::min(t.fo->error_threshold, 2.f);
  t.fo->line_threshold = std::min(t.fo->line_threshold, 1.f);
  t.fo->filter_iterations = std::min(t.fo->filter_iterations, 8u);
  bool center = c.chance(1, 3);
  t.fo->centerline = center;
  t.fo->preserve_width = center && c.chance(1, 4);
  int rel = c.weighted({3, 3, 4, 3});
  if (rel == 0) {
    // grey in one plane and in three; centre lines at the border are the known finding planes-border
    t.im = gen_shapes(c, 1, 40, 1, 40, 1, gen_palette(c, c.range(1, 4), true, true));
    if (t.has_bg) {
      t.bg = t.im.get(0, 0);
      t.fo.bg(t.bg);
    }
    if (center) clear_border(t.im, t.has_bg ? t.bg : RGB{255, 255, 255});
  } else if (rel == 1) {
    if (center && !t.has_bg) {
      t.has_bg = true;
      t.fo.bg(t.bg = t.im.get(0, 0));
    }
    t.fo->preserve_width = false;
    if (t.im.np == 1 && t.has_bg) {
      t.bg = t.im.get(0, 0);
      t.fo.bg(t.bg);
    }
  } else if (rel == 2) {
    t.has_bg = true;
    t.fo.bg(t.bg = t.im.get(0, 0));
    t.fo->preserve_width = false;
    if (center) clear_border(t.im, t.bg);  // thinning stops at the border
  }
  Image &im = t.im;
  c.note(im.dump());
  c.note(show(t.fo.o));
  Msgs m;
  Splines a(trace(im, t.fo.o, m));
  REQUIRE(a.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  bool interesting = a->length > 0 && (a->length > 1 || a->data[0].length > 4);
  if (rel == 0) {
    c.label("one and three planes");
    Splines b(trace(as_rgb(im), t.fo.o, m));
    REQUIRE(b.s, "no-result", "tracing the three-plane picture gave no result");
    same(a.s, b.s, nullptr, "planes");
    if (interesting) c.nontrivial(eng::hash_str(show(t.fo.o), im.hash()));
  } else if (rel == 1) {
    c.label("colours renamed");
    std::map<uint32_t, RGB> ren;
    std::set<uint32_t> used;
    Image r = im;
    auto renamed = [&](RGB q) {
      auto it = ren.find(q.u());
      if (it != ren.end()) return it->second;
      RGB n = gen_color(c);
      if (im.np == 1) n.g = n.b = n.r;
      while (used.count(n.u())) n = im.np == 1 ? RGB{uint8_t(n.r + 1), uint8_t(n.r + 1), uint8_t(n.r + 1)} : RGB{uint8_t(n.r + 1), uint8_t(n.g + 7), n.b};
      used.insert(n.u());
      return ren[q.u()] = n;
    };
    for (int y = 0; y < im.h; y++)
      for (int x = 0; x < im.w; x++) r.set(x, y, renamed(im.get(x, y)));
    FitOpts g;
    at_fitting_opts_free(g.o);
    g.o = at_fitting_opts_copy(t.fo.o);
    if (t.has_bg) g.bg(renamed(t.bg));
    c.note("renamed " + r.dump());
    Splines b(trace(r, g.o, m));
    REQUIRE(b.s, "no-result", "tracing the renamed picture gave no result");
    same(a.s, b.s, &ren, "renaming");
    if (interesting) c.nontrivial(eng::hash_str(show(t.fo.o), im.hash()));
  } else if (rel == 2) {
    c.label("margin added");
    int l = c.range(0, 9), r = c.range(0, 9), up = c.range(0, 9), dn = c.range(0, 9);
    switch (c.weighted({90, 9, 1})) {
      case 1:
        *c.pick(std::vector<int *>{&l, &r, &up, &dn}) = c.range(10, 280);
        *c.pick(std::vector<int *>{&l, &r, &up, &dn}) = c.range(10, 280);
        c.label("wide margin");
        break;
      case 2: {  // coordinates beyond 15 bits
        bool h = c.coin();
        int &big = *c.pick(h ? std::vector<int *>{&l, &r} : std::vector<int *>{&up, &dn});
        big = c.range(32600, 65535 - (h ? im.w + l + r : im.h + up + dn));
        c.label("huge margin");
        break;
      }
    }
    Image p(im.w + l + r, im.h + up + dn, im.np);
    for (int y = 0; y < p.h; y++)
      for (int x = 0; x < p.w; x++) {
        int u = x - l, v = y - up;
        p.set(x, y, u >= 0 && v >= 0 && u < im.w && v < im.h ? im.get(u, v) : t.bg);
      }
    c.note(sfmt("margins left %d right %d top %d bottom %d", l, r, up, dn));
    Splines b(trace(p, t.fo.o, m));
    REQUIRE(b.s, "no-result", "tracing the larger picture gave no result");
    REQUIRE(b->width == p.w && b->height == p.h, "margin", "the result says %ux%u", b->width, b->height);
    REQUIRE(a->length == b->length, "margin", "%u lists instead of %u", b->length, a->length);
    double e = t.fo->error_threshold, li = t.fo->line_threshold, sm = t.fo->filter_iterations ? .75 + .35 * t.fo->filter_iterations : 0;
    double tol = 2 * (2 * e + li + 1.5 + 2 * sm);
    bool exact = true;
    for (unsigned i = 0; i < a->length; i++) {
      auto &x = a->data[i], &y = b->data[i];
      REQUIRE(colour(x) == colour(y) && x.clockwise == y.clockwise && x.open == y.open, "margin", "list %u has another colour or other flags", i);
      auto pa = flatten(x), pb = flatten(y);
      for (auto &q : pb) q.x -= l, q.y -= dn;
      std::vector<Seg> sa, sb;
      for (size_t k = 0; k + 1 < pa.size(); k++) sa.push_back({pa[k], pa[k + 1]});
      for (size_t k = 0; k + 1 < pb.size(); k++) sb.push_back({pb[k], pb[k + 1]});
      SegIndex ia(sa), ib(sb);
      for (auto &q : pa) REQUIRE(ib.nearest(q) <= tol, "margin", "list %u passes (%g,%g), but with a margin it stays %g pixels away", i, q.x, q.y, ib.nearest(q));
      for (auto &q : pb) REQUIRE(ia.nearest(q) <= tol, "margin", "with a margin list %u passes (%g,%g), %g pixels from where it was", i, q.x, q.y, ia.nearest(q));
      exact &= x.length == y.length;
      for (unsigned j = 0; exact && j < x.length; j++)
        for (int k : {0, 3}) exact &= std::fabs(x.data[j].v[k].x + l - y.data[j].v[k].x) < 1e-3 && std::fabs(x.data[j].v[k].y + dn - y.data[j].v[k].y) < 1e-3;
    }
    c.label(exact ? "margin: same curves" : "margin: other curves");
    if (interesting && l + r + up + dn) c.nontrivial(eng::hash_str(show(t.fo.o), im.hash()));
  } else {
    c.label("irrelevant options");
    FitOpts g;
    at_fitting_opts_free(g.o);
    g.o = at_fitting_opts_copy(t.fo.o);
    g->charcode = c.range(0, 255);
    g->despeckle_tightness = c.real(0, 8);
    g->noise_removal = c.real(0, 1);
    if (!g->preserve_width) g->width_weight_factor = c.real(0, 10);
    if (!center) g->preserve_width = c.coin();
    c.note("other options " + show(g.o));
    Splines b(trace(im, g.o, m));
    REQUIRE(b.s, "no-result", "tracing with other options gave no result");
    same(a.s, b.s, nullptr, "options");
    if (interesting) c.nontrivial(eng::hash_str(show(g.o), im.hash()));
  }
  if (center) c.label("centre lines");
}
eng::Reg r8({"T08", "the result has several lists or a list of more than four curves", t08, 30000, 400000, 20, {"pictures up to 40x40, margins up to 9, some up to 280 and some up to the greatest possible size"}});
}  // namespace
