#include "geom.h"
#include <algorithm>
std::vector<P2> flatten(const at_spline_list_type &l, int n) {
  std::vector<P2> p;
  for (unsigned i = 0; i < l.length; i++) {
    const at_spline_type &s = l.data[i];
    int m = 1;
    if (s.degree != AT_LINEARTYPE) {
      double len = 0;
      for (int k = 0; k < 3; k++) len += std::hypot(s.v[k + 1].x - s.v[k].x, s.v[k + 1].y - s.v[k].y);
      m = std::max(n, std::min(4000, (int)(len * 4)));
    }
    if (p.empty()) p.push_back(eval(s, 0));
    for (int k = 1; k <= m; k++) p.push_back(eval(s, (double)k / m));
  }
  return p;
}
std::vector<Seg> boundary(const Image &im, const RGB *bg) {
  std::vector<Seg> r;
  auto get = [&](int x, int y, RGB &c) {
    if (x < 0 || y < 0 || x >= im.w || y >= im.h) return false;
    c = im.get(x, y);
    return !(bg && c == *bg);
  };
  auto differ = [&](int x, int y, int u, int v) {
    RGB a, b;
    bool p = get(x, y, a), q = get(u, v, b);
    return p != q || (p && a != b);
  };
  for (int y = 0; y <= im.h; y++)
    for (int x = 0; x <= im.w; x++) {
      if (y < im.h && differ(x - 1, y, x, y)) r.push_back({{(double)x, (double)(im.h - y)}, {(double)x, (double)(im.h - y - 1)}});
      if (x < im.w && differ(x, y - 1, x, y)) r.push_back({{(double)x, (double)(im.h - y)}, {(double)x + 1, (double)(im.h - y)}});
    }
  return r;
}
static const double CS = 4;
SegIndex::SegIndex(std::vector<Seg> segs) : s(std::move(segs)) {
  double ax = 1e30, ay = 1e30, bx = -1e30, by = -1e30;
  for (auto &g : s)
    for (P2 p : {g.a, g.b}) ax = std::min(ax, p.x), ay = std::min(ay, p.y), bx = std::max(bx, p.x), by = std::max(by, p.y);
  if (s.empty()) ax = ay = bx = by = 0;
  x0 = (int)std::floor(ax / CS), y0 = (int)std::floor(ay / CS);
  nx = (int)std::floor(bx / CS) - x0 + 1, ny = (int)std::floor(by / CS) - y0 + 1;
  if ((double)nx * ny > 4e6) nx = ny = 1;  // degenerate input: a single cell
  cell.resize((size_t)nx * ny);
  for (size_t i = 0; i < s.size(); i++) {
    auto ix = [&](double v) { return std::min(nx - 1, std::max(0, (int)std::floor(v / CS) - x0)); };
    auto iy = [&](double v) { return std::min(ny - 1, std::max(0, (int)std::floor(v / CS) - y0)); };
    int u0 = ix(std::min(s[i].a.x, s[i].b.x)), u1 = ix(std::max(s[i].a.x, s[i].b.x)), v0 = iy(std::min(s[i].a.y, s[i].b.y)), v1 = iy(std::max(s[i].a.y, s[i].b.y));
    for (int v = v0; v <= v1; v++)
      for (int u = u0; u <= u1; u++) cell[(size_t)v * nx + u].push_back((int)i);
  }
}
double SegIndex::nearest(P2 p) const {
  double best = INFINITY;
  if (s.empty()) return best;
  if (nx * ny == 1) {
    for (auto &g : s) best = std::min(best, dist_ps(p, g));
    return best;
  }
  int u = (int)std::floor(p.x / CS) - x0, v = (int)std::floor(p.y / CS) - y0;
  int start = 0;  // rings that lie fully outside the grid are empty
  if (u < 0) start = std::max(start, -u);
  if (u >= nx) start = std::max(start, u - nx + 1);
  if (v < 0) start = std::max(start, -v);
  if (v >= ny) start = std::max(start, v - ny + 1);
  int lim = start + nx + ny + 2;
  for (int r = start; r <= lim; r++) {
    if (best <= (r - 1) * CS) break;
    for (int j = std::max(0, v - r); j <= std::min(ny - 1, v + r); j++) {
      bool edge = j == v - r || j == v + r;
      for (int i = edge ? std::max(0, u - r) : u - r; i <= (edge ? std::min(nx - 1, u + r) : u + r); i += edge ? 1 : 2 * r) {
        if (i >= 0 && i < nx)
          for (int k : cell[(size_t)j * nx + i]) best = std::min(best, dist_ps(p, s[k]));
        if (r == 0) break;
      }
    }
  }
  return best;
}
bool inside(const std::vector<P2> &q, P2 p) {
  int w = 0;
  for (size_t i = 0, n = q.size(); i < n; i++) {
    P2 a = q[i], b = q[(i + 1) % n];
    if ((a.y > p.y) == (b.y > p.y)) continue;
    double x = a.x + (b.x - a.x) * (p.y - a.y) / (b.y - a.y);
    if (x > p.x) w += a.y < b.y ? 1 : -1;
  }
  return w != 0;
}
double area(const std::vector<P2> &q) {
  double s = 0;
  for (size_t i = 0, n = q.size(); i < n; i++) {
    P2 a = q[i], b = q[(i + 1) % n];
    s += a.x * b.y - b.x * a.y;
  }
  return s / 2;
}
int components(const Image &im, bool eight, std::vector<int> &lab) {
  lab.assign((size_t)im.w * im.h, -1);
  int n = 0;
  std::vector<int> st;
  for (int i = 0; i < im.w * im.h; i++) {
    if (lab[i] >= 0) continue;
    lab[i] = n;
    st.push_back(i);
    RGB col = im.get(i % im.w, i / im.w);
    while (!st.empty()) {
      int k = st.back(), x = k % im.w, y = k / im.w;
      st.pop_back();
      for (int dy = -1; dy <= 1; dy++)
        for (int dx = -1; dx <= 1; dx++) {
          if ((!dx && !dy) || (!eight && dx && dy)) continue;
          int u = x + dx, v = y + dy;
          if (u < 0 || v < 0 || u >= im.w || v >= im.h || lab[v * im.w + u] >= 0) continue;
          if (im.get(u, v) == col) {
            lab[v * im.w + u] = n;
            st.push_back(v * im.w + u);
          }
        }
    }
    n++;
  }
  return n;
}

std::vector<char> mixed_hole(const Image &im, const RGB &bg) {
  std::vector<char> out((size_t)im.w * im.h, 0);
  std::vector<int> l4, l8;
  int k4 = components(im, false, l4), k8 = components(im, true, l8);
  struct Info {
    bool two = false, any = false;
    RGB c{};
  };
  std::vector<Info> in(k8);
  std::vector<char> border(k4, 0);
  for (int y = 0; y < im.h; y++)
    for (int x = 0; x < im.w; x++) {
      if (im.get(x, y) != bg) continue;
      Info &f = in[l8[y * im.w + x]];
      if (x == 0 || y == 0 || x == im.w - 1 || y == im.h - 1) border[l4[y * im.w + x]] = 1;
      for (int v = std::max(0, y - 1); v <= std::min(im.h - 1, y + 1); v++)
        for (int u = std::max(0, x - 1); u <= std::min(im.w - 1, x + 1); u++) {
          RGB q = im.get(u, v);
          if (q == bg) continue;
          if (f.any && q != f.c) f.two = true;
          f.any = true;
          f.c = q;
        }
    }
  for (int i = 0; i < im.w * im.h; i++) out[i] = im.get(i % im.w, i / im.w) == bg && !border[l4[i]] && in[l8[i]].two;
  return out;
}
