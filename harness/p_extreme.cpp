// T12: tracing with any option values at all.
#include "trace.h"
#include "common.h"
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstring>

namespace {
float any_real(Ctx &c) {
  switch (c.weighted({4, 3, 2, 2, 1, 1})) {
    case 0: return c.pick(std::vector<float>{0, 1, 2, .5f, .01f, 60, 100, 180, 360});
    case 1: return c.pick(std::vector<float>{-1, -.5f, -100, -1e-6f, 1e-6f, 1e-30f});
    case 2: return c.pick(std::vector<float>{1e4f, 1e6f, 1e10f, 1e20f, FLT_MAX, -1e10f, -FLT_MAX});
    case 3: return c.real(0, 10);
    case 4: return c.pick(std::vector<float>{INFINITY, -INFINITY});
    default: return NAN;
  }
}
unsigned any_count(Ctx &c) {
  switch (c.weighted({3, 3, 2, 1})) {
    case 0: return c.range(0, 4);
    case 1: return c.range(0, 40);
    case 2: return c.range(0, 100000);
    default: return c.pick(std::vector<unsigned>{UINT_MAX, UINT_MAX - 1, INT_MAX, INT_MAX - 1, 0x80000000u, 0x80000001u, 65535, 65536, 1u << 20});
  }
}

void t12(Ctx &c) {
  TraceCase t;
  gen_case(c, t, c.chance(1, 6) ? 60 : 24, Opt::all);
  at_fitting_opts_type *f = t.fo.o;
  f->centerline = c.chance(1, 3);
  f->preserve_width = c.chance(1, 2);
  unsigned drawn = 0;
  auto R = [&](float &x) { if (c.coin()) x = any_real(c), drawn++; };
  auto U = [&](unsigned &x) { if (c.coin()) x = any_count(c), drawn++; };
  R(f->corner_always_threshold);
  R(f->corner_threshold);
  U(f->corner_surround);
  R(f->error_threshold);
  R(f->line_reversion_threshold);
  R(f->line_threshold);
  U(f->tangent_surround);
  if (c.coin()) f->filter_iterations = c.range(0, 200);
  R(f->width_weight_factor);
  if (c.chance(1, 3)) f->color_count = c.chance(3, 4) ? c.range(0, 300) : any_count(c);
  if (c.chance(1, 3)) f->despeckle_level = c.chance(3, 4) ? c.range(0, 25) : any_count(c);
  R(f->despeckle_tightness);
  R(f->noise_removal);
  // other numbers of planes may be traced or refused
  int planes = c.chance(1, 15) ? c.pick(std::vector<int>{2, 4, 5}) : t.im.np;
  c.note(t.im.dump());
  c.note(show(f));
  c.note("planes " + std::to_string(planes));
  at_fitting_opts_type before = *f;
  for (int round = 0; round < 2; round++) {
    long live = eng::live_blocks();
    {
      Msgs m;
      at_splines_type *r;
      if (planes == t.im.np) r = trace(t.im, f, m);
      else {
        at_bitmap *b = at_bitmap_new(t.im.w, t.im.h, planes);
        for (int i = 0; i < t.im.w * t.im.h * planes; i++) b->bitmap[i] = t.im.d[i % t.im.d.size()];
        r = at_splines_new(b, f, msg_cb, &m);
        at_bitmap_free(b);
      }
      Splines s(r);
      REQUIRE(s.s || m.fatal, "silent", "no result and no message");
      REQUIRE(!memcmp(&before, f, sizeof before), "options-changed", "tracing changed the options");
      c.label(s.s ? "traced" : "refused");
      if (s.s && round == 0) {
        c.note(show(s.s));
        if (drawn > 2) c.nontrivial(hash_splines(s.s));
        REQUIRE(s->width == t.im.w && s->height == t.im.h, "size", "the result says %dx%d", s->width, s->height);
        bool wide = f->centerline && f->preserve_width && !(std::fabs(f->width_weight_factor) <= 1e4);
        if (wide) c.label("weights beyond reason");
        for (unsigned i = 0; !wide && i < s->length; i++) {
          at_spline_list_type &l = s->data[i];
          REQUIRE(l.length > 0, "empty-list", "list %u is empty", i);
          for (unsigned j = 0; j < l.length; j++) {
            at_spline_type &p = l.data[j];
            REQUIRE(p.degree == AT_LINEARTYPE || p.degree == AT_CUBICTYPE, "degree", "list %u piece %u has degree %d", i, j, (int)p.degree);
            for (int k = 0; k < 4; k++) {
              if (p.degree == AT_LINEARTYPE && (k == 1 || k == 2)) continue;
              REQUIRE(std::isfinite(p.v[k].x) && std::isfinite(p.v[k].y), "not-finite", "list %u piece %u point %d is (%g,%g)", i, j, k, p.v[k].x, p.v[k].y);
            }
            for (int k : {0, 3})
              REQUIRE(p.v[k].x >= -1 && p.v[k].y >= -1 && p.v[k].x <= t.im.w + 1 && p.v[k].y <= t.im.h + 1, "outside", "list %u piece %u ends in (%g,%g)", i, j, p.v[k].x, p.v[k].y);
            if (j + 1 < l.length || !l.open) {
              at_real_coord a = p.v[3], b = l.data[(j + 1) % l.length].v[0];
              REQUIRE(std::fabs(a.x - b.x) < .01 && std::fabs(a.y - b.y) < .01, "gap", "list %u piece %u ends in (%g,%g), the next starts in (%g,%g)", i, j, a.x, a.y, b.x, b.y);
            }
          }
        }
      }
    }
    long left = eng::live_blocks() - live;
    if (round) REQUIRE(left <= 0, "leak", "%ld heap blocks remain allocated", left);
  }
  if (f->centerline) c.label("centre line");
}
static eng::Reg reg({"T12", "pictures with each fitting option at an ordinary value or anything else its type can hold (zero, negative, tiny, huge, infinite, not a number), one bitmap in fifteen with a number of planes that no format yields, traced twice with heap blocks counted over the second; non-trivial: at least three such values and a result; distinct by the result", t12, 20000, 300000, 20, {"smoothing passes are drawn up to 200, as the time is proportional to them", "coordinates are not judged with width weights beyond 10000 in width-preserving mode"}});
}
