#ifndef VERIF_TRACE_H
#define VERIF_TRACE_H
#include "geom.h"
// A picture with the options it is traced with.
struct TraceCase {
  Image im;
  FitOpts fo;
  bool has_bg = false;
  RGB bg{};
};
// kinds of option choice: plain = thresholds only, all = every fitting option
enum class Opt { plain, all };
void gen_case(Ctx &c, TraceCase &t, int maxdim, Opt o);
// runs the tracer; the bitmap afterwards is stored in *after when given
at_splines_type *trace(const Image &im, at_fitting_opts_type *o, Msgs &m, Image *after = nullptr);
struct Splines {  // owner
  at_splines_type *s;
  explicit Splines(at_splines_type *p) : s(p) {}
  ~Splines() { if (s) at_splines_free(s); }
  Splines(const Splines &) = delete;
  at_splines_type *operator->() { return s; }
};
#endif
