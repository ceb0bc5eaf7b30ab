// T06, T07: changes made to the picture before tracing.
#include "trace.h"
#include <algorithm>
#include <map>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
RGB near_color(Ctx &c, RGB q, int d, bool gray) {
  auto f = [&](uint8_t v) { return (uint8_t)std::min(255, std::max(0, (int)v + (int)c.range(-d, d))); };
  RGB r{f(q.r), 0, 0};
  if (gray) return {r.r, r.r, r.r};
  r.g = f(q.g), r.b = f(q.b);
  return r;
}
int cell(RGB q) { return (q.r >> 1) << 14 | (q.g >> 1) << 7 | q.b >> 1; }
int cheb(RGB a, RGB b) { return std::max({std::abs(a.r - b.r), std::abs(a.g - b.g), std::abs(a.b - b.b)}); }
// distance used to choose the replacement colour, from the middle of the pixel's 2x2x2 cell
int scaled(RGB a, RGB b) {
  int r = 2 * ((a.r | 1) - b.r), g = 3 * ((a.g | 1) - b.g), l = (a.b | 1) - b.b;
  return r * r + g * g + l * l;
}

void t06(Ctx &c) {
  init_lib();
  bool gray = c.chance(1, 3);
  int np = gray ? 1 : 3;
  Image im;
  std::vector<RGB> pal;
  int mode = c.weighted({3, 3, 3, 2});
  RGB cl[2];
  const int spread = 10;
  if (mode == 0) {  // a few colours
    pal = gen_palette(c, c.range(1, 9), gray, true);
    im = gen_shapes(c, 1, 20, 1, 20, np, pal);
  } else if (mode == 1) {  // two clusters of similar colours
    cl[0] = gen_color(c);
    if (gray) cl[0].g = cl[0].b = cl[0].r;
    do {
      cl[1] = gray ? RGB{c.byte(), 0, 0} : gen_color(c);
      if (gray) cl[1].g = cl[1].b = cl[1].r;
      if (cheb(cl[0], cl[1]) <= 6 * spread) cl[1] = RGB{(uint8_t)(cl[1].r + 128), (uint8_t)(cl[1].g + 128), (uint8_t)(cl[1].b + 128)};
    } while (cheb(cl[0], cl[1]) <= 6 * spread);
    im = Image(c.range(1, 16), c.range(1, 16), np);
    int split = c.range(0, im.w);
    for (int y = 0; y < im.h; y++)
      for (int x = 0; x < im.w; x++) im.set(x, y, near_color(c, cl[x >= split], c.coin() ? spread : 0, gray));
  } else if (mode == 2) {  // many colours
    im = gen_noise(c, 18, 18, np);
  } else {  // a ramp
    im = Image(c.range(2, 40), c.range(1, 6), np);
    RGB a = gen_color(c), b = gen_color(c);
    for (int y = 0; y < im.h; y++)
      for (int x = 0; x < im.w; x++) {
        auto f = [&](uint8_t u, uint8_t v) { return (uint8_t)(u + (v - u) * x / (im.w - 1)); };
        im.set(x, y, {f(a.r, b.r), f(a.g, b.g), f(a.b, b.b)});
      }
  }
  FitOpts fo;
  int N = c.weighted({3, 2}) == 0 ? c.range(1, 12) : c.skewed(1, 256);
  fo->color_count = N;
  bool has_bg = c.coin(), bg_used = false;
  RGB bg{};
  if (has_bg) {
    bg = c.chance(1, 4) ? gen_color(c) : im.get(c.range(0, im.w - 1), c.range(0, im.h - 1));
    if (gray) bg.g = bg.b = bg.r;
    fo.bg(bg);
  }
  c.note(im.dump());
  c.note(sfmt("reduced to %d colours%s", N, has_bg ? sfmt(", background %06x", bg.u()).c_str() : ""));
  Msgs m;
  Image out;
  Splines s(trace(im, fo.o, m, &out));
  REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  c.note("reduced " + out.dump());
  REQUIRE(out.w == im.w && out.h == im.h && out.np == im.np, "size", "the picture became %dx%d in %d planes", out.w, out.h, out.np);
  std::map<uint32_t, RGB> map;
  std::set<int> cells;
  std::set<RGB> left, before;
  RGB lo{255, 255, 255}, hi{0, 0, 0};
  double sum[2][3] = {{0}};
  long cnt[2] = {0, 0};
  for (int y = 0; y < im.h; y++)
    for (int x = 0; x < im.w; x++) {
      RGB a = im.get(x, y), b = out.get(x, y);
      auto it = map.insert({a.u(), b}).first;
      REQUIRE(it->second == b, "torn", "pixels of colour %06x became %06x and %06x", a.u(), it->second.u(), b.u());
      bg_used |= has_bg && a == bg;
      if (has_bg && a == bg) REQUIRE(b == bg, "background-changed", "a background pixel became %06x", b.u());
      cells.insert(cell(a)), before.insert(a);
      if (!has_bg || b != bg) left.insert(b);
      lo = {std::min(lo.r, a.r), std::min(lo.g, a.g), std::min(lo.b, a.b)};
      hi = {std::max(hi.r, a.r), std::max(hi.g, a.g), std::max(hi.b, a.b)};
      if (mode == 1) {
        int k = cheb(a, cl[1]) <= spread;
        cnt[k]++, sum[k][0] += a.r, sum[k][1] += a.g, sum[k][2] += a.b;
      }
    }
  REQUIRE((int)left.size() <= N, "too-many", "%zu colours are left", left.size());
  for (RGB q : left) {
    auto in = [](int v, int a, int b) { return v >= a - 1 && v <= b + 1; };
    REQUIRE(in(q.r, lo.r, hi.r) && in(q.g, lo.g, hi.g) && in(q.b, lo.b, hi.b), "out-of-range", "colour %06x lies outside the picture's range %06x..%06x", q.u(), lo.u(), hi.u());
  }
  bool absent = has_bg && !bg_used;  // then the colour nearest to it stands for it
  if ((int)cells.size() <= N && !absent)
    for (auto &k : map) {
      RGB a{(uint8_t)(k.first >> 16), (uint8_t)(k.first >> 8), (uint8_t)k.first};
      REQUIRE(cheb(a, k.second) <= 1, "needless", "colour %06x became %06x although the picture has only %zu colours", a.u(), k.second.u(), before.size());
    }
  // every colour went to the nearest of those that are left
  for (auto &k : map) {
    if (has_bg && k.second == bg) continue;
    RGB a{(uint8_t)(k.first >> 16), (uint8_t)(k.first >> 8), (uint8_t)k.first};
    for (RGB q : left) REQUIRE(scaled(a, k.second) <= scaled(a, q), "not-nearest", "colour %06x became %06x although %06x is nearer", a.u(), k.second.u(), q.u());
  }
  if (mode == 1 && N >= 2 && !absent && cnt[0] && cnt[1])
    for (auto &k : map) {
      RGB a{(uint8_t)(k.first >> 16), (uint8_t)(k.first >> 8), (uint8_t)k.first};
      int i = cheb(a, cl[1]) <= spread;
      REQUIRE(cheb(k.second, cl[i]) <= spread + 1, "far", "colour %06x became %06x, which belongs to the other group", a.u(), k.second.u());
      if (N == 2 && !has_bg) {
        double d = std::max({std::fabs(k.second.r - sum[i][0] / cnt[i]), std::fabs(k.second.g - sum[i][1] / cnt[i]), std::fabs(k.second.b - sum[i][2] / cnt[i])});
        REQUIRE(d <= 1.51, "not-mean", "colour %06x became %06x; its group's mean is %.1f %.1f %.1f", a.u(), k.second.u(), sum[i][0] / cnt[i], sum[i][1] / cnt[i], sum[i][2] / cnt[i]);
        c.label("group means checked");
      }
    }
  std::set<uint32_t> traced;
  for (unsigned i = 0; i < s->length; i++) traced.insert(RGB{s->data[i].color.r, s->data[i].color.g, s->data[i].color.b}.u());
  std::set<uint32_t> want;
  for (RGB q : left) want.insert(q.u());
  REQUIRE(traced == want, "traced", "%zu colours are traced, %zu are left in the picture", traced.size(), want.size());
  if ((int)cells.size() <= N) c.label("nothing to reduce");
  else c.label("reduced");
  if (bg_used) c.label("background occurs");
  if (absent) c.label("background does not occur");
  if (before.size() > 1 && (int)before.size() > N) c.nontrivial(eng::hash_bytes(&N, 4, im.hash()) ^ (has_bg ? bg.u() : ~0u));
}

// what the documentation says about sizes and similarity
struct Despeckle {
  int level;
  std::vector<double> t;  // similarity limit per round
  Despeckle(int n, int l, double tight, double noise) {
    int cap = (int)(std::log2(n) - .5);
    level = std::max(0, std::min(l, cap));
    double ad = level ? (noise * (1 + tight * level) - 1) / level : 0;
    for (int i = 0; i < level; i++) t.push_back(noise * 255 / (1 + ad * i));
  }
  int limit() const { return level ? 1 << (level - 1) : 0; }  // smaller blobs are removed
};
double diff(RGB a, RGB b) {
  double r = a.r - b.r, g = a.g - b.g, l = a.b - b.b;
  return std::sqrt((r * r + g * g + l * l) / 3);
}

void t07(Ctx &c) {
  init_lib();
  bool gray = c.chance(1, 3);
  int np = gray ? 1 : 3;
  FitOpts fo;
  Image im;
  int mode = c.weighted({120, 120, 80, 80, 1});
  std::vector<RGB> pal = gen_palette(c, c.range(mode == 4 ? 2 : 1, 5), gray, true);
  if (mode != 4 && c.chance(1, 3))
    for (size_t i = 1; i < pal.size(); i++) pal[i] = near_color(c, pal[0], 60, gray);
  struct Speck {
    int x, y, size;
    RGB q;
  };
  std::vector<Speck> specks;
  if (mode == 0) im = gen_shapes(c, 1, 30, 1, 30, np, pal);
  else if (mode == 1) {
    im = Image(c.range(1, 20), c.range(1, 20), np);
    for (int y = 0; y < im.h; y++)
      for (int x = 0; x < im.w; x++) im.set(x, y, c.pick(pal));
  } else if (mode == 2) im = gen_noise(c, 12, 12, np);
  else if (mode == 4) {  // a very long picture of bands with single-pixel specks
    int len = c.range(32700, 65535), wid = c.range(2, 3), step = c.range(100, 300);
    bool tall = c.chance(1, 3);
    if (tall) len = 32700 + len % 100;  // rows are visited recursively
    im = Image(tall ? wid : len, tall ? len : wid, np);
    for (int y = 0; y < im.h; y++)
      for (int x = 0; x < im.w; x++) im.set(x, y, pal[(x + y) / step % pal.size()]);
    for (int k = 0; k < 5; k++) im.set(c.range(0, im.w - 1), c.range(0, im.h - 1), c.pick(pal));
  } else {  // separate specks on one colour
    im = Image(c.range(12, 60), c.range(12, 40), np);
    for (int y = 0; y < im.h; y++)
      for (int x = 0; x < im.w; x++) im.set(x, y, pal[0]);
    int n = c.range(1, 8), x = 0;
    for (int k = 0; k < n && x + 10 < im.w; k++) {
      x += c.range(0, 6);
      int w = c.range(1, 5), h = std::min((int)c.range(1, 6), im.h), y = c.range(0, im.h - h);
      if (x + w > im.w) break;
      RGB q = near_color(c, pal[0], c.chance(1, 3) ? 255 : 90, gray);
      if (q == pal[0]) continue;
      specks.push_back({x, y, w * h, q});
      for (int v = 0; v < h; v++)
        for (int u = 0; u < w; u++) im.set(x + u, y + v, q);
      x += w + 1;
    }
  }
  int level = c.weighted({1, 5, 2}) == 0 ? 0 : c.chance(1, 4) ? c.range(0, 20) : c.range(1, 7);
  if (mode == 4) level = level % 6;  // the bands stay
  double tight = c.chance(1, 3) ? 0 : c.pick(std::vector<double>{2, 1, .25, .5, 3, 8});
  double noise = c.coin() ? 1 : c.pick(std::vector<double>{.99, .75, .5, .25, .125});
  fo->despeckle_level = level;
  fo->despeckle_tightness = tight;
  fo->noise_removal = noise;
  noise = fo->noise_removal;
  c.note(im.dump());
  c.note(sfmt("despeckle level %d, tightness %g, noise removal %g", level, tight, noise));
  Msgs m;
  Image out;
  {
    Splines s(trace(im, fo.o, m, &out));
    REQUIRE(s.s && !m.fatal, "no-result", "tracing gave no result: %s", m.last.c_str());
  }
  c.note("despeckled " + out.dump());
  Despeckle d(im.w * im.h, level, tight, noise);
  if (level == 0) REQUIRE(out.d == im.d, "changed", "level 0 changed the picture");
  std::vector<int> lab, lab2;
  int n = components(im, false, lab), n2 = components(out, false, lab2);
  std::vector<int> size(n), size2(n2), first(n, -1), kept(n2);
  std::vector<RGB> to(n);
  std::set<RGB> before;
  for (int i = 0; i < im.w * im.h; i++) {
    int x = i % im.w, y = i / im.w;
    RGB a = im.get(x, y), b = out.get(x, y);
    before.insert(a);
    if (first[lab[i]] < 0) first[lab[i]] = i, to[lab[i]] = b;
    REQUIRE(to[lab[i]] == b, "torn", "the blob at x=%d row=%d is partly %06x and partly %06x afterwards", first[lab[i]] % im.w, first[lab[i]] / im.w, to[lab[i]].u(), b.u());
    size[lab[i]]++;
    size2[lab2[i]]++;
    kept[lab2[i]] |= a == b;
  }
  double T = 0;
  for (size_t i = 1; i < d.t.size(); i++) T = std::max(T, d.t[i]);
  std::vector<RGB> cols(before.begin(), before.end());
  int changed = 0;
  for (int k = 0; k < n; k++) {
    RGB a = im.get(first[k] % im.w, first[k] / im.w);
    int x = first[k] % im.w, y = first[k] / im.w;
    if (to[k] == a) continue;
    changed++;
    REQUIRE(before.count(to[k]), "new-colour", "the blob at x=%d row=%d became %06x, which was not in the picture", x, y, to[k].u());
    REQUIRE(size[k] < d.limit(), "large-blob", "the blob of %d pixels at x=%d row=%d was recoloured; the limit is %d", size[k], x, y, d.limit());
    // reachable by steps no larger than the similarity limit
    std::vector<RGB> st{a};
    std::set<RGB> seen{a};
    while (!st.empty()) {
      RGB q = st.back();
      st.pop_back();
      for (RGB r : cols)
        if (!seen.count(r) && diff(q, r) <= T + 1e-3) seen.insert(r), st.push_back(r);
    }
    REQUIRE(seen.count(to[k]), "too-different", "the blob at x=%d row=%d went from %06x to %06x; the similarity limit is %.2f", x, y, a.u(), to[k].u(), T);
  }
  for (int k = 0; k < n2; k++) REQUIRE(kept[k], "not-adjacent", "a blob of %d pixels has a colour that none of its pixels had before", size2[k]);
  if (d.level && tight == 0 && noise == 1 && n2 > 1)
    for (int k = 0; k < n2; k++) REQUIRE(size2[k] >= d.limit(), "speck-left", "a blob of %d pixels is left; the limit is %d", size2[k], d.limit());
  // separate specks on a large area: each is judged alone
  long area = im.w * im.h;
  for (auto &s : specks) area -= s.size;
  bool spoilt = im.h < 4;  // a speck may cut the area in two
  if (!specks.empty() && area >= d.limit() && (!spoilt || n == (int)specks.size() + 1))
    for (auto &s : specks) {
      bool must = false, may = false;
      for (int i = 1; i < d.level; i++) {
        if (s.size >= 1 << i) continue;
        double e = diff(s.q, pal[0]);
        must |= e <= std::floor(d.t[i] - 1e-3);
        may |= e <= std::floor(d.t[i] + 1e-3);
      }
      bool gone = out.get(s.x, s.y) == pal[0];
      REQUIRE(!must || gone, "speck-left", "the speck of %d pixels at x=%d row=%d (%06x on %06x) was kept", s.size, s.x, s.y, s.q.u(), pal[0].u());
      REQUIRE(may || !gone, "speck-removed", "the speck of %d pixels at x=%d row=%d (%06x on %06x) was removed", s.size, s.x, s.y, s.q.u(), pal[0].u());
      c.count(gone ? "specks removed" : "specks kept", 1);
    }
  if (im.w > 32767 || im.h > 32767) c.label("longer than 32767 pixels");
  if (gray) {  // the same picture in three planes
    Image c3(im.w, im.h, 3), o3;
    for (int y = 0; y < im.h; y++)
      for (int x = 0; x < im.w; x++) c3.set(x, y, im.get(x, y));
    Splines s(trace(c3, fo.o, m, &o3));
    for (int y = 0; y < im.h; y++)
      for (int x = 0; x < im.w; x++) REQUIRE(o3.get(x, y) == out.get(x, y), "planes", "x=%d row=%d: %06x when stored in three planes, %06x in one", x, y, o3.get(x, y).u(), out.get(x, y).u());
    c.label("one and three planes");
  }
  if (d.level) c.label("level in effect");
  if (changed) c.nontrivial(eng::hash_str(show(fo.o), im.hash()));
}

// Known finding: a winding line of several hundred thousand pixels is followed
// by as many nested calls.
bool deep_shows(Ctx &) {
  fflush(nullptr);
  pid_t k = fork();
  if (!k) {
    freopen("/dev/null", "w", stderr);
    init_lib();
    const int n = 900;
    Image im(n, n, 1);
    std::fill(im.d.begin(), im.d.end(), 255);
    for (int x = 0; x < n; x += 2) {
      for (int y = 1; y + 1 < n; y++) im.d[y * n + x] = 0;
      if (x + 2 < n) im.d[(x / 2 % 2 ? 1 : n - 2) * n + x + 1] = 0;
    }
    FitOpts fo;
    fo->despeckle_level = 2;
    at_bitmap *b = to_bitmap(im);
    // asking to stop as soon as tracing proper begins
    at_splines_new_full(b, fo.o, nullptr, nullptr, nullptr, nullptr, [](void *) -> bool { return true; }, nullptr);
    _exit(0);
  }
  int st = 0;
  waitpid(k, &st, 0);
  return !WIFEXITED(st) || WEXITSTATUS(st) != 0;
}
eng::RegF f7({"T07", "deep-recursion", deep_shows});

eng::Reg r6({"T06", "the picture has more colours than were asked for", t06, 8000, 120000, 20, {"pictures up to 40 pixels wide, counts 1..256", "the reduced picture is read from the caller's bitmap after tracing"}});
eng::Reg r7({"T07", "at least one blob was recoloured", t07, 30000, 300000, 20, {"pictures up to 60x40, a few up to 65535x3", "the despeckled picture is read from the caller's bitmap after tracing"}});
}  // namespace
