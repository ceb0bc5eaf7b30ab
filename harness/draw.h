#ifndef VERIF_DRAW_H
#define VERIF_DRAW_H
#include "common.h"
#include "trace.h"
#include <map>
// What a written file draws, read back by small readers of each format.
struct Piece {
  bool cubic;
  P2 a, b, e;  // controls (cubic only) and end
};
struct Sub {  // one list of connected pieces
  P2 start{};
  std::vector<Piece> segs;
  bool closed = false;
};
struct Paint {
  bool fill = false;
  bool has_color = true;
  double rgb[3] = {0, 0, 0};
  std::vector<Sub> subs;
};
struct Drawing {
  std::vector<Paint> paints;
  bool has_size = false;
  double x0 = 0, y0 = 0, x1 = 0, y1 = 0;  // stated picture area
  std::map<std::string, double> extra;
};
Drawing read_svg(const std::string &f);
Drawing read_sk(const std::string &f);
Drawing read_ps(const std::string &f);   // eps, ai, p2e
Drawing read_epd(const std::string &f);
Drawing read_pdf(const std::string &f);
Drawing read_pov(const std::string &f);
struct ErShape {
  bool closed;
  std::vector<P2> in, p, out;
  std::vector<double> win, wp, wout;
  std::vector<double> corr;
};
struct ErFile {
  int w, h;
  std::vector<ErShape> shapes;
};
ErFile read_er(const std::string &f);

// Curves to write: traced or built by hand.
struct Curves {
  at_splines_type *s = nullptr;
  bool traced = false;
  double big = 0;  // largest absolute coordinate
  Curves() {}
  Curves(const Curves &) = delete;
  ~Curves();
};
struct CurveOpts {
  int maxdim = 60;      // of a hand-built picture
  bool huge = false;    // allow pictures up to 65535 wide
  int maxlists = 10;
  int maxpieces = 8;    // of one list
  bool center = true;   // centre-line curves too
  bool many_colors = true;
};
void gen_curves(Ctx &c, Curves &k, const CurveOpts &o);
std::string gen_name(Ctx &c);
inline bool stroked(const at_splines_type *s, const at_spline_list_type &l) { return s->centerline || l.open; }
[[noreturn]] void bad_syntax(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#endif
