#ifndef VERIF_GEOM_H
#define VERIF_GEOM_H
#include "common.h"
struct P2 {
  double x, y;
};
struct Seg {
  P2 a, b;
};
inline double dist_ps(P2 p, const Seg &s) {
  double dx = s.b.x - s.a.x, dy = s.b.y - s.a.y, l = dx * dx + dy * dy;
  double t = l > 0 ? ((p.x - s.a.x) * dx + (p.y - s.a.y) * dy) / l : 0;
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  return std::hypot(p.x - s.a.x - t * dx, p.y - s.a.y - t * dy);
}
inline P2 eval(const at_spline_type &s, double t) {
  if (s.degree == AT_LINEARTYPE) return {s.v[0].x + (s.v[3].x - s.v[0].x) * t, s.v[0].y + (s.v[3].y - s.v[0].y) * t};
  double u = 1 - t, a = u * u * u, b = 3 * u * u * t, c = 3 * u * t * t, d = t * t * t;
  return {a * s.v[0].x + b * s.v[1].x + c * s.v[2].x + d * s.v[3].x, a * s.v[0].y + b * s.v[1].y + c * s.v[2].y + d * s.v[3].y};
}
// straight pieces of a list; every curve is cut into `n` pieces or more when long
std::vector<P2> flatten(const at_spline_list_type &l, int n = 16);
// edges between pixels of different colour, and of the picture's border; y up
std::vector<Seg> boundary(const Image &im, const RGB *bg);
// squared spatial index over segments for nearest distance queries
struct SegIndex {
  std::vector<Seg> s;
  std::vector<std::vector<int>> cell;
  int x0, y0, nx, ny;
  explicit SegIndex(std::vector<Seg> segs);
  double nearest(P2 p) const;  // infinity when there are no segments
};
bool inside(const std::vector<P2> &poly, P2 p);  // non-zero winding
double area(const std::vector<P2> &poly);
// connected components by equal colour; returns label per pixel and the count
int components(const Image &im, bool eight, std::vector<int> &lab);
// Enclosed background pixels whose area touches more than one other colour:
// the area may lie in a hole that is not traced (known finding mixed-hole).
std::vector<char> mixed_hole(const Image &im, const RGB &bg);
#endif
