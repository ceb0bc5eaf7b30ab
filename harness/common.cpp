#include "common.h"
#include <algorithm>
#include <set>
#include <unistd.h>

const std::vector<std::string> kReaders = {"pbm", "pgm", "ppm", "pnm", "bmp", "tga", "png", "gf"};
const std::vector<std::string> kWriters = {"svg", "eps", "ai", "p2e", "sk", "ugs", "fig", "emf", "mif", "er", "dxf", "epd", "pdf", "cgm", "dr2d", "pov", "plt", "ild"};

extern "C" const char *__asan_default_options() {
  return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_malloc_fill_size=67108864:malloc_fill_byte=190:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=16";
}
extern "C" const char *__ubsan_default_options() { return "exitcode=99:print_stacktrace=1"; }

void init_lib() {
  static bool done = false;
  if (!done) {
    autotrace_init();
    done = true;
  }
}

std::string Image::dump() const {
  std::string s = sfmt("%dx%d np=%d", w, h, np);
  if ((size_t)w * h <= 4000) {
    std::vector<RGB> pal;
    std::string body;
    const char *sym = ".#abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    for (int y = 0; y < h; y++) {
      body += "\n  ";
      for (int x = 0; x < w; x++) {
        RGB c = get(x, y);
        size_t i = std::find(pal.begin(), pal.end(), c) - pal.begin();
        if (i == pal.size()) pal.push_back(c);
        body += i < strlen(sym) ? sym[i] : '?';
      }
    }
    s += " colours:";
    for (size_t i = 0; i < pal.size() && i < 64; i++) s += sfmt(" %c=%02x%02x%02x", sym[i], pal[i].r, pal[i].g, pal[i].b);
    s += body;
  } else s += sfmt(" hash=%016llx", (unsigned long long)hash());
  return s;
}

void msg_cb(const char *msg, at_msg_type t, void *data) {
  Msgs *m = (Msgs *)data;
  if (t == AT_MSG_FATAL) m->fatal++;
  else if (t == AT_MSG_WARNING) m->warning++;
  else m->other++;
  m->last = msg ? msg : "(null)";
}

at_bitmap *to_bitmap(const Image &im) {
  at_bitmap *b = at_bitmap_new(im.w, im.h, im.np);
  if (!im.d.empty()) memcpy(b->bitmap, im.d.data(), im.d.size());
  return b;
}
Image from_bitmap(const at_bitmap *b) {
  Image im(at_bitmap_get_width(b), at_bitmap_get_height(b), at_bitmap_get_planes(b));
  if (!im.d.empty()) memcpy(im.d.data(), b->bitmap, im.d.size());
  return im;
}

std::string write_file(Ctx &c, const char *name, const Bytes &b) {
  std::string p = std::string(c.scratch()) + "/" + name;
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) {
    perror(p.c_str());
    abort();
  }
  if (!b.empty()) fwrite(b.data(), 1, b.size(), f);
  fclose(f);
  return p;
}
Bytes read_file(const std::string &path) {
  Bytes b;
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return b;
  uint8_t buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n);
  fclose(f);
  return b;
}

at_bitmap *read_bytes(Ctx &c, const char *suffix, const Bytes &b, Msgs &m, at_input_opts_type *o) {
  init_lib();
  std::string p = write_file(c, (std::string("in.") + suffix).c_str(), b);
  at_bitmap_reader *r = at_input_get_handler((char *)p.c_str());
  if (!r) eng::fail("no-reader", "no input handler for suffix %s", suffix);
  return at_bitmap_read(r, (char *)p.c_str(), o, msg_cb, &m);
}

std::string hex(const Bytes &b, size_t max) {
  std::string s;
  for (size_t i = 0; i < b.size() && i < max; i++) s += sfmt("%02x", b[i]);
  if (b.size() > max) s += sfmt("...(%zu bytes)", b.size());
  return s;
}

RGB gen_color(Ctx &c) {
  switch (c.weighted({4, 2, 2, 6})) {
    case 0: {
      static const std::vector<RGB> k = {{0, 0, 0}, {255, 255, 255}, {255, 0, 0}, {0, 255, 0}, {0, 0, 255}, {255, 255, 0}, {0, 255, 255}, {255, 0, 255}, {128, 128, 128}};
      return c.pick(k);
    }
    case 1: {
      uint8_t v = c.byte();
      return {v, v, v};
    }
    case 2: {
      static const std::vector<uint8_t> k = {0, 255, 1, 254, 127, 128};
      return {c.pick(k), c.pick(k), c.pick(k)};
    }
    default: return {c.byte(), c.byte(), c.byte()};
  }
}
std::vector<RGB> gen_palette(Ctx &c, int n, bool gray, bool distinct) {
  std::vector<RGB> p;
  int tries = 0;
  while ((int)p.size() < n) {
    RGB k = gen_color(c);
    if (gray) k.g = k.b = k.r;
    if (distinct && std::find(p.begin(), p.end(), k) != p.end()) {
      if (++tries > 40) {  // walk to the next free value
        do {
          k.r++;
          if (gray) k.g = k.b = k.r;
        } while (std::find(p.begin(), p.end(), k) != p.end());
      } else continue;
    }
    p.push_back(k);
  }
  return p;
}

Image gen_noise(Ctx &c, int maxw, int maxh, int np) {
  int w = c.range(1, maxw), h = c.range(1, maxh);
  Image im(w, h, np);
  if (c.chance(1, 4)) {
    // few colours
    auto pal = gen_palette(c, c.range(1, 4), np == 1, false);
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++) im.set(x, y, pal[c.choose(pal.size())]);
  } else
    for (auto &v : im.d) v = c.byte();
  return im;
}

static void fill_poly(Image &im, const std::vector<std::pair<double, double>> &p, RGB col) {
  for (int y = 0; y < im.h; y++)
    for (int x = 0; x < im.w; x++) {
      double px = x + .5, py = y + .5;
      bool in = false;
      for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++)
        if ((p[i].second > py) != (p[j].second > py) && px < (p[j].first - p[i].first) * (py - p[i].second) / (p[j].second - p[i].second) + p[i].first) in = !in;
      if (in) im.set(x, y, col);
    }
}

Image gen_shapes(Ctx &c, int minw, int maxw, int minh, int maxh, int np, const std::vector<RGB> &pal) {
  int w = c.range(minw, maxw), h = c.range(minh, maxh);
  Image im(w, h, np);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) im.set(x, y, pal[0]);
  int n = c.range(0, 6);
  for (int k = 0; k < n; k++) {
    RGB col = pal[pal.size() == 1 ? 0 : (c.chance(1, 5) ? 0 : 1 + c.choose(pal.size() - 1))];
    switch (c.weighted({5, 4, 4, 3, 2, 2, 2, 2, 1})) {
      case 0: {  // rectangle
        int x0 = c.range(0, w - 1), x1 = c.range(x0, w - 1), y0 = c.range(0, h - 1), y1 = c.range(y0, h - 1);
        for (int y = y0; y <= y1; y++)
          for (int x = x0; x <= x1; x++) im.set(x, y, col);
        break;
      }
      case 1: {  // ellipse, possibly a ring
        double cx = c.real(0, w), cy = c.real(0, h), rx = c.real(0.5, std::max(1., w * .6)), ry = c.real(0.5, std::max(1., h * .6));
        double inner = c.chance(1, 3) ? c.real(0.2, 0.9) : 0;
        for (int y = 0; y < h; y++)
          for (int x = 0; x < w; x++) {
            double dx = (x + .5 - cx) / rx, dy = (y + .5 - cy) / ry, d = dx * dx + dy * dy;
            if (d <= 1 && d >= inner * inner) im.set(x, y, col);
          }
        break;
      }
      case 2: {  // polygon
        std::vector<std::pair<double, double>> p;
        int m = c.range(3, 7);
        for (int i = 0; i < m; i++) {
          double px = c.real(0, w), py = c.real(0, h);
          p.push_back({px, py});
        }
        fill_poly(im, p, col);
        break;
      }
      case 3: {  // thick line
        double x0 = c.real(0, w), y0 = c.real(0, h), x1 = c.real(0, w), y1 = c.real(0, h), t = c.real(.5, 4);
        double L2 = (x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0);
        for (int y = 0; y < h; y++)
          for (int x = 0; x < w; x++) {
            double px = x + .5, py = y + .5, u = L2 > 0 ? ((px - x0) * (x1 - x0) + (py - y0) * (y1 - y0)) / L2 : 0;
            u = std::min(1., std::max(0., u));
            double dx = px - (x0 + u * (x1 - x0)), dy = py - (y0 + u * (y1 - y0));
            if (dx * dx + dy * dy <= t * t) im.set(x, y, col);
          }
        break;
      }
      case 4: {  // isolated pixels
        int m = c.range(1, 8);
        for (int i = 0; i < m; i++) {
          int x = c.range(0, w - 1), y = c.range(0, h - 1);
          im.set(x, y, col);
        }
        break;
      }
      case 5: {  // checker or stripes area
        int x0 = c.range(0, w - 1), x1 = c.range(x0, w - 1), y0 = c.range(0, h - 1), y1 = c.range(y0, h - 1), per = c.range(1, 3), mode = c.range(0, 2);
        for (int y = y0; y <= y1; y++)
          for (int x = x0; x <= x1; x++) {
            int a = (x / per) & 1, b = (y / per) & 1;
            if (mode == 0 ? (a ^ b) : mode == 1 ? a : b) im.set(x, y, col);
          }
        break;
      }
      case 6: {  // frame
        int x0 = c.range(0, w - 1), x1 = c.range(x0, w - 1), y0 = c.range(0, h - 1), y1 = c.range(y0, h - 1), t = c.range(1, 4);
        for (int y = y0; y <= y1; y++)
          for (int x = x0; x <= x1; x++)
            if (x < x0 + t || x > x1 - t || y < y0 + t || y > y1 - t) im.set(x, y, col);
        break;
      }
      case 7: {  // random walk
        int x = c.range(0, w - 1), y = c.range(0, h - 1), m = c.range(1, 60);
        for (int i = 0; i < m; i++) {
          im.set(x, y, col);
          int d = c.range(0, 7);
          x += (int[]){1, -1, 0, 0, 1, 1, -1, -1}[d];
          y += (int[]){0, 0, 1, -1, 1, -1, 1, -1}[d];
          x = std::min(w - 1, std::max(0, x));
          y = std::min(h - 1, std::max(0, y));
        }
        break;
      }
      default: {  // noise area
        int x0 = c.range(0, w - 1), x1 = c.range(x0, std::min(w - 1, x0 + 9)), y0 = c.range(0, h - 1), y1 = c.range(y0, std::min(h - 1, y0 + 9));
        for (int y = y0; y <= y1; y++)
          for (int x = x0; x <= x1; x++) im.set(x, y, pal[c.choose(pal.size())]);
      }
    }
  }
  return im;
}

std::string show(const at_fitting_opts_type *o) {
  std::string bg = "none";
  if (o->background_color) bg = sfmt("%02x%02x%02x", o->background_color->r, o->background_color->g, o->background_color->b);
  return sfmt("opts bg=%s colors=%u cat=%g csur=%u cthr=%g err=%g filt=%u lrev=%g line=%g rac=%d tsur=%u dlev=%u dtight=%g noise=%g center=%d pw=%d wwf=%g", bg.c_str(), o->color_count, o->corner_always_threshold, o->corner_surround, o->corner_threshold, o->error_threshold, o->filter_iterations, o->line_reversion_threshold, o->line_threshold, o->remove_adjacent_corners, o->tangent_surround, o->despeckle_level, o->despeckle_tightness, o->noise_removal, o->centerline, o->preserve_width, o->width_weight_factor);
}

std::string show(const at_splines_type *s, size_t max) {
  if (!s) return "NULL splines";
  std::string r = sfmt("splines %ux%u lists=%u center=%d", s->width, s->height, s->length, s->centerline);
  size_t n = 0;
  for (unsigned i = 0; i < s->length; i++) {
    const at_spline_list_type &l = s->data[i];
    r += sfmt("\n list %u len=%u cw=%d open=%d col=%02x%02x%02x:", i, l.length, l.clockwise, l.open, l.color.r, l.color.g, l.color.b);
    for (unsigned j = 0; j < l.length; j++) {
      if (n++ >= max) return r + " ...";
      const at_spline_type &p = l.data[j];
      if (p.degree == AT_LINEARTYPE) r += sfmt(" L(%g,%g)-(%g,%g)", p.v[0].x, p.v[0].y, p.v[3].x, p.v[3].y);
      else r += sfmt(" C(%g,%g)(%g,%g)(%g,%g)(%g,%g)", p.v[0].x, p.v[0].y, p.v[1].x, p.v[1].y, p.v[2].x, p.v[2].y, p.v[3].x, p.v[3].y);
    }
  }
  return r;
}

std::string write_mem(const char *suffix, at_splines_type *s, const char *name, at_output_opts_type *oo, Msgs *m) {
  init_lib();
  at_spline_writer *w = at_output_get_handler_by_suffix((char *)suffix);
  if (!w) eng::fail("no-writer", "no output handler for suffix %s", suffix);
  char *buf = nullptr;
  size_t n = 0;
  // a temporary file rather than a memory stream: some writers seek
  FILE *f = tmpfile();
  if (!f) abort();
  Msgs mm;
  at_splines_write(w, f, (char *)name, oo, s, msg_cb, m ? m : &mm);
  fflush(f);
  fseek(f, 0, SEEK_END);
  n = ftell(f);
  rewind(f);
  std::string out(n, 0);
  if (n && fread(&out[0], 1, n, f) != n) abort();
  fclose(f);
  (void)buf;
  return out;
}

uint64_t hash_splines(const at_splines_type *s) {
  if (!s) return 0;
  uint32_t m[5] = {s->length, s->width, s->height, s->centerline, s->preserve_width};
  uint64_t h = eng::hash_bytes(m, sizeof m);
  for (unsigned i = 0; i < s->length; i++) {
    const at_spline_list_type &l = s->data[i];
    uint32_t k[6] = {l.length, l.clockwise, l.open, l.color.r, l.color.g, l.color.b};
    h = eng::hash_bytes(k, sizeof k, h);
    for (unsigned j = 0; j < l.length; j++) {
      const at_spline_type &p = l.data[j];
      int deg = p.degree;
      h = eng::hash_bytes(&deg, sizeof deg, h);
      for (int q = 0; q < 4; q++) {
        if (p.degree == AT_LINEARTYPE && (q == 1 || q == 2)) continue;
        float v[3] = {p.v[q].x, p.v[q].y, s->preserve_width ? p.v[q].z : 0};
        for (float &f : v)
          if (f == 0) f = 0;
        h = eng::hash_bytes(v, sizeof v, h);
      }
    }
  }
  return h;
}
