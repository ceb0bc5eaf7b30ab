#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "engine.h"
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
extern "C" {
#include "autotrace.h"
#include "input.h"
#include "output.h"
#include "exception.h"
}

using eng::Ctx;
using eng::sfmt;
typedef std::vector<uint8_t> Bytes;

struct RGB {
  uint8_t r, g, b;
  bool operator==(const RGB &o) const { return r == o.r && g == o.g && b == o.b; }
  bool operator!=(const RGB &o) const { return !(*this == o); }
  bool operator<(const RGB &o) const { return r != o.r ? r < o.r : g != o.g ? g < o.g : b < o.b; }
  uint32_t u() const { return r << 16 | g << 8 | b; }
};

struct Image {
  int w = 0, h = 0, np = 1;
  Bytes d;
  Image() {}
  Image(int w_, int h_, int np_) : w(w_), h(h_), np(np_), d((size_t)w_ * h_ * np_) {}
  uint8_t *at(int x, int y) { return &d[((size_t)y * w + x) * np]; }
  const uint8_t *at(int x, int y) const { return &d[((size_t)y * w + x) * np]; }
  RGB get(int x, int y) const {
    const uint8_t *p = at(x, y);
    return np >= 3 ? RGB{p[0], p[1], p[2]} : RGB{p[0], p[0], p[0]};
  }
  void set(int x, int y, RGB c) {
    uint8_t *p = at(x, y);
    p[0] = c.r;
    if (np >= 3) p[1] = c.g, p[2] = c.b;
  }
  uint64_t hash() const {
    int m[3] = {w, h, np};
    return eng::hash_bytes(d.data(), d.size(), eng::hash_bytes(m, sizeof m));
  }
  std::string dump() const;
};

// messages delivered through the message callback
struct Msgs {
  int fatal = 0, warning = 0, other = 0;
  std::string last;
};
void msg_cb(const char *msg, at_msg_type t, void *data);

at_bitmap *to_bitmap(const Image &im);
Image from_bitmap(const at_bitmap *b);
std::string write_file(Ctx &c, const char *name, const Bytes &b);
Bytes read_file(const std::string &path);
// Reads bytes as a file with the given suffix through the public API.
at_bitmap *read_bytes(Ctx &c, const char *suffix, const Bytes &b, Msgs &m, at_input_opts_type *o = nullptr);
std::string hex(const Bytes &b, size_t max = 400);
void init_lib();

// ---- generators
RGB gen_color(Ctx &c);
std::vector<RGB> gen_palette(Ctx &c, int n, bool gray, bool distinct = true);
// unstructured picture: every sample random
Image gen_noise(Ctx &c, int maxw, int maxh, int np);
// shapes on a background; colours come from pal (pal[0] is the canvas)
Image gen_shapes(Ctx &c, int minw, int maxw, int minh, int maxh, int np, const std::vector<RGB> &pal);

// ---- fitting options
struct FitOpts {
  at_fitting_opts_type *o;
  FitOpts() : o(at_fitting_opts_new()) {}
  ~FitOpts() { at_fitting_opts_free(o); }
  void bg(RGB c) {
    at_color_free(o->background_color);
    o->background_color = at_color_new(c.r, c.g, c.b);
  }
  FitOpts(const FitOpts &) = delete;
  at_fitting_opts_type *operator->() { return o; }
};
std::string show(const at_fitting_opts_type *o);
std::string show(const at_splines_type *s, size_t max = 30);
std::string write_mem(const char *suffix, at_splines_type *s, const char *name, at_output_opts_type *oo = nullptr, Msgs *m = nullptr);
uint64_t hash_splines(const at_splines_type *s);
extern const std::vector<std::string> kReaders, kWriters;
#endif
