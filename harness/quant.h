#ifndef VERIF_QUANT_H
#define VERIF_QUANT_H
#include "draw.h"
// Files of formats that round coordinates or cut curves into lines, read back.
struct Poly {
  std::vector<P2> v;
  std::vector<std::vector<P2>> off;  // control points before each vertex (UGS)
  bool fill = false, closed = false, has_fill = true;
  bool back = false;   // may leave out the way back to its start
  bool has_rgb = false;
  int rgb[3] = {0, 0, 0};
  int id = -1;         // pen or palette index
  int depth = 0;
};
struct Polys {
  std::vector<Poly> p;
  bool has_size = false;
  double x0 = 0, y0 = 0, x1 = 0, y1 = 0;
  double size_res = 0;
  std::map<std::string, double> extra;
};
Polys read_fig(const std::string &f);
Polys read_mif(const std::string &f);
Polys read_dxf(const std::string &f);
Polys read_plt(const std::string &f);
Polys read_ugs(const std::string &f);
Polys read_ild(const std::string &f);
Drawing read_emf(const std::string &f);
Drawing read_cgm(const std::string &f, std::string *name = nullptr);
Drawing read_dr2d(const std::string &f, double width, double height);  // in pixels; "res" and "rel" in extra
#endif
