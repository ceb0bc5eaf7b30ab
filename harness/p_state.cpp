// S01-S03: determinism, callbacks, ownership.
#include "readers.h"
#include "trace.h"
#include <algorithm>
#include <locale.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
// One use of the library: get a picture, trace it, write the curves.
struct Job {
  std::string suffix;  // reader, empty: the picture is built in memory
  Bytes file;
  bool damaged = false;
  TraceCase t;
  std::string writer;
  bool twice = false;  // write the same curves a second time
  long cancel = -1;    // cancel at this test
};
void gen_job(Ctx &c, Job &j, bool target) {
  gen_case(c, j.t, 20, Opt::all);
  at_fitting_opts_type *f = j.t.fo.o;
  if (c.chance(1, 3)) f->centerline = true;
  if (c.chance(1, 12)) f->color_count = c.range(1, 8);
  if (c.chance(1, 4)) f->despeckle_level = c.range(1, 6);
  if (c.chance(1, 2)) {
    j.suffix = c.pick(kReaders);
    j.file = base_file(c, j.suffix);
    if (c.chance(1, target ? 8 : 3)) {
      j.damaged = true;
      mutate(c, j.file, j.suffix);
    }
    if (declared_pixels(j.suffix, j.file) > 20000) j.suffix.clear();
  }
  j.writer = c.pick(kWriters);
  if (j.writer == "pov" && f->centerline) j.writer = "svg";  // refused by design
  if (!target) {
    j.twice = c.chance(1, 4);
    if (c.chance(1, 4)) j.cancel = c.skewed(1, 600);
  }
}
std::string show(const Job &j) {
  return (j.suffix.empty() ? "picture " + j.t.im.dump() : j.suffix + " file " + hex(j.file, 1500)) + "\n " + show(j.t.fo.o) + (j.cancel >= 0 ? sfmt(" cancelled at test %ld", j.cancel) : "") + " -> " + j.writer + (j.twice ? " twice" : "");
}
struct Cancel {
  long left, calls;
};
bool cancel_cb(void *p) {
  Cancel *k = (Cancel *)p;
  k->calls++;
  if (k->left < 0) return false;
  if (k->left > 0) k->left--;
  return k->left == 0;
}
void progress_cb(float v, void *p) { *(float *)p = v; }

// Runs the job and returns everything observable about its result.
std::string run_job(Ctx &c, const Job &j, bool callbacks) {
  std::string r;
  at_bitmap *b;
  Msgs m;
  if (j.suffix.empty()) b = to_bitmap(j.t.im);
  else {
    at_input_opts_type *io = at_input_opts_new();
    std::string p = write_file(c, ("job." + j.suffix).c_str(), j.file);
    b = at_bitmap_read(at_input_get_handler((char *)p.c_str()), (char *)p.c_str(), io, callbacks ? msg_cb : nullptr, &m);
    at_input_opts_free(io);
  }
  if (!b) return "no bitmap\n";
  {
    Image im = from_bitmap(b);
    r += sfmt("bitmap %dx%dx%d %016llx\n", im.w, im.h, im.np, (unsigned long long)im.hash());
  }
  if (at_bitmap_get_width(b) == 0 || at_bitmap_get_height(b) == 0) {
    at_bitmap_free(b);
    return r;
  }
  Cancel k{j.cancel, 0};
  float prog = 0;
  at_fitting_opts_type *o = at_fitting_opts_copy(j.t.fo.o);
  at_splines_type *s = at_splines_new_full(b, o, callbacks ? msg_cb : nullptr, &m, callbacks ? progress_cb : nullptr, &prog, callbacks || j.cancel >= 0 ? cancel_cb : nullptr, &k);
  at_fitting_opts_free(o);
  {
    Image im = from_bitmap(b);
    r += sfmt("bitmap after tracing %016llx\n", (unsigned long long)im.hash());
  }
  at_bitmap_free(b);
  if (!s) return r + "no curves\n";
  r += sfmt("curves %016llx ", (unsigned long long)hash_splines(s)) + show(s, 100000) + "\n";
  r += "file:\n" + write_mem(j.writer.c_str(), s, "name");
  if (j.twice) r += "again:\n" + write_mem(j.writer.c_str(), s, "name");
  at_splines_free(s);
  return r;
}
// The same in a process that has not used the library before.
bool fresh(Ctx &c, const Job &j, std::string &out, int &status) {
  int fd[2];
  if (pipe(fd)) abort();
  pid_t pid = fork();
  if (pid < 0) abort();
  if (!pid) {
    close(fd[0]);
    std::string r = run_job(c, j, true);
    size_t o = 0;
    while (o < r.size()) {
      ssize_t n = write(fd[1], r.data() + o, r.size() - o);
      if (n <= 0) break;
      o += n;
    }
    _exit(0);
  }
  close(fd[1]);
  char buf[65536];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n);
  close(fd[0]);
  waitpid(pid, &status, 0);
  return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}
std::string diff(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t s = a.rfind('\n', i ? i - 1 : 0);
  s = s == std::string::npos || i - s > 120 ? (i > 40 ? i - 40 : 0) : s + 1;
  auto clean = [](std::string t) {
    for (char &ch : t)
      if (ch < 32 || ch > 126) ch = '.';
    return t;
  };
  const char *where = a.compare(0, i, a, 0, i) == 0 && a.substr(0, i).find("file:\n") != std::string::npos ? "written file" : a.substr(0, i).find("curves ") != std::string::npos ? "curves" : "bitmap";
  return sfmt("%s differ (lengths %zu and %zu, first difference at %zu): \"%s\" against \"%s\"", where, a.size(), b.size(), i, clean(a.substr(s, 90)).c_str(), clean(b.substr(s, 90)).c_str());
}
std::string zero_exe() {
  char buf[4096];
  ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
  if (n <= 0) abort();
  buf[n] = 0;
  std::string s = buf;
  size_t k = s.rfind("/pat/");
  return k == std::string::npos ? "" : s.substr(0, k) + "/zero/vprop";
}

void s01(Ctx &c) {
  init_lib();
  setenv("AT_DATE_ZERO", "yes", 1);
  std::vector<uint64_t> buf;
  uint64_t nbuf = 0;
  if (!c.rec) {
    buf.resize(1 << 18);
    c.rec = buf.data(), c.cap = buf.size(), c.nrec = &nbuf;
  }
  Job t;
  gen_job(c, t, true);
  bool zero = c.chance(1, 3);
  if (const char *of = getenv("VERIF_S01_CHILD")) {  // the other build's half of the comparison
    std::string r = run_job(c, t, true);
    FILE *f = fopen(of, "wb");
    if (!f || (r.size() && fwrite(r.data(), 1, r.size(), f) != r.size()) || fclose(f)) abort();
    return;
  }
  size_t ntarget = *c.nrec;
  c.note("target: " + show(t));
  std::string ref;
  int st = 0;
  bool ok = fresh(c, t, ref, st);
  REQUIRE(ok, WIFEXITED(st) && WEXITSTATUS(st) == 99 ? "crash" : "exit", "the target on its own ended with status %x", st);
  // what happened before in the same process
  int n = c.weighted({2, 4, 3, 2, 1});
  bool gf_target = t.suffix == "gf";
  for (int i = 0; i < n; i++) {
    Job h;
    gen_job(c, h, false);
    if (t.writer == "ugs" && !gf_target && h.suffix == "gf") {
      c.count("GF reads dropped from the history of a UGS write (ugs-metrics)", 1);
      continue;
    }
    if (c.chance(1, 5)) h.writer = t.writer;
    if (h.writer == "pov" && h.t.fo->centerline) h.writer = "eps";
    c.note("before: " + show(h));
    run_job(c, h, c.coin());
    c.label("history");
    if (h.cancel >= 0) c.label("cancelled trace in the history");
    if (h.damaged) c.label("damaged file in the history");
  }
  std::string a = run_job(c, t, true);
  REQUIRE(a == ref, "history", "after %d earlier operations: %s", n, diff(ref, a).c_str());
  a = run_job(c, t, false);
  REQUIRE(a == ref, "callbacks", "repeated without callbacks: %s", diff(ref, a).c_str());
  if (zero && ntarget < c.cap && !zero_exe().empty()) {
    std::string dir = c.scratch(), rf = dir + "/s01.replay", of = dir + "/s01.out", sd = dir + "/zs";
    FILE *f = fopen(rf.c_str(), "w");
    if (!f) abort();
    fprintf(f, "property=S01\ntier=%s\nchoices=", c.tier);
    for (size_t i = 0; i < ntarget; i++) fprintf(f, "%llu,", (unsigned long long)c.rec[i]);
    fprintf(f, "\n");
    fclose(f);
    unlink(of.c_str());
    std::string exe = zero_exe();
    pid_t pid = fork();
    if (pid < 0) abort();
    if (!pid) {
      setenv("VERIF_S01_CHILD", of.c_str(), 1);
      setenv("ASAN_OPTIONS", "malloc_fill_byte=0", 1);
      execl(exe.c_str(), exe.c_str(), "replay", rf.c_str(), "--scratch", sd.c_str(), "--quiet", "1", (char *)nullptr);
      _exit(98);
    }
    int zst = 0;
    waitpid(pid, &zst, 0);
    REQUIRE(WIFEXITED(zst) && WEXITSTATUS(zst) == 0, "crash", "with zeroed memory the target ended with status %x", zst);
    Bytes zb = read_file(of);
    std::string z(zb.begin(), zb.end());
    REQUIRE(z == ref, "uninitialised", "with other contents of uninitialised memory: %s", diff(ref, z).c_str());
    c.label("other memory contents");
  }
  c.label(("to " + t.writer).c_str());
  if (!t.suffix.empty()) c.label(("from " + t.suffix).c_str());
  if (t.t.fo->centerline) c.label("centre-line");
  if (n && ref.find("file:\n") != std::string::npos) c.nontrivial(eng::hash_str(ref));
}
static eng::Reg reg_s01({"S01", "a target (picture read from a file or built, traced, written) run in a fresh process and again after zero to four other operations (reads of sound and damaged files, traces, cancelled traces, writes), without callbacks, and for a third of the cases in a second build with other contents of uninitialised stack and heap memory; non-trivial: there was a history and the target produced a file; distinct by everything the target produced", s01, 5000, 60000, 30, {"dates are fixed with the documented environment variable", "POV output of centre-line traces is refused by design and not generated", "a GF read before a UGS write of another picture is excluded (listed finding)"}});

// ---- S02
struct Watch {
  std::vector<float> prog;
  long tests = 0, at = 0;  // answer true from test number `at` on (0: never)
  long after = 0;          // progress reports after the first true answer
  bool cancelled = false;
};
bool watch_cancel(void *p) {
  Watch *w = (Watch *)p;
  w->tests++;
  if (w->at && w->tests >= w->at) w->cancelled = true;
  return w->cancelled;
}
void watch_progress(float v, void *p) {
  Watch *w = (Watch *)p;
  if (w->cancelled) w->after++;
  if (w->prog.size() < 200000) w->prog.push_back(v);
}
void check_progress(const Watch &w, bool done) {
  float last = 0;
  for (size_t i = 0; i < w.prog.size(); i++) {
    float v = w.prog[i];
    REQUIRE(v >= 0 && v <= 1, "progress-range", "progress report %zu is %g", i, v);
    REQUIRE(v >= last, "progress-decreases", "progress report %zu is %.9g after %.9g", i, v, last);
    last = v;
  }
  if (done) {
    REQUIRE(!w.prog.empty(), "progress-missing", "no progress was reported");
    REQUIRE(last == 1.0f, "progress-end", "the last progress report is %.9g", last);
  }
}
void s02(Ctx &c) {
  init_lib();
  TraceCase t;
  gen_case(c, t, c.chance(1, 12) ? 60 : 24, Opt::all);
  at_fitting_opts_type *f = t.fo.o;
  if (c.chance(2, 5)) f->centerline = true;
  if (c.chance(1, 16)) f->color_count = c.range(1, 8);
  if (c.chance(1, 5)) f->despeckle_level = c.range(1, 6);
  bool want_progress = !c.chance(1, 6), want_msg = !c.chance(1, 6);
  double where = c.real(0, 1, 4000);
  int edge = c.weighted({4, 2, 3});
  c.note(t.im.dump());
  c.note(show(f));
  Msgs m;
  uint64_t plain;
  {
    Splines s(trace(t.im, f, m));
    REQUIRE(s.s, "no-result", "tracing gave no result: %s", m.last.c_str());
    plain = hash_splines(s.s);
  }
  Watch w;
  {
    at_bitmap *b = to_bitmap(t.im);
    Splines s(at_splines_new_full(b, f, want_msg ? msg_cb : nullptr, &m, want_progress ? watch_progress : nullptr, &w, watch_cancel, &w));
    at_bitmap_free(b);
    REQUIRE(s.s, "no-result", "tracing with a cancel callback that answers false gave no result");
    REQUIRE(hash_splines(s.s) == plain, "callback-changes-result", "the curves differ when callbacks are installed");
    if (want_progress) check_progress(w, true);
    else REQUIRE(w.prog.empty(), "progress-unwanted", "progress reported without a callback");
  }
  long n = w.tests;
  REQUIRE(n > 0, "never-asked", "the cancel callback was never asked");
  // cancel at any of these moments, preferring the ends
  long k = edge == 0 ? 1 + (long)(where * (n - 1)) : edge == 1 ? 1 + (long)(where * std::min<long>(n - 1, 3)) : n - (long)(where * std::min<long>(n - 1, 6));
  c.note(sfmt("cancel at test %ld of %ld", k, n));
  for (int round = 0; round < 2; round++) {
    Watch x;
    x.at = k;
    x.prog.reserve(want_progress ? w.prog.size() + 8 : 0);
    at_bitmap *b = to_bitmap(t.im);
    long live = eng::live_blocks();
    at_splines_type *s = at_splines_new_full(b, f, want_msg ? msg_cb : nullptr, &m, want_progress ? watch_progress : nullptr, &x, watch_cancel, &x);
    long left = eng::live_blocks() - live;
    at_bitmap_free(b);
    REQUIRE(x.cancelled, "not-repeatable", "the second trace asked only %ld times", x.tests);
    REQUIRE(!s, "cancelled-result", "tracing returned curves although cancelled at test %ld of %ld", k, n);
    REQUIRE(x.prog.empty() || x.prog.back() < 1.0f, "progress-end", "a cancelled trace reported completion");
    check_progress(x, false);
    if (round) REQUIRE(left <= 0, "leak", "%ld heap blocks remain allocated after a trace cancelled at test %ld of %ld", left, k, n);
  }
  // the library still works afterwards
  Splines s(trace(t.im, f, m));
  REQUIRE(s.s && hash_splines(s.s) == plain, "damaged-state", "a trace after a cancelled one gives other curves");
  if (f->centerline) c.label("centre-line");
  if (k == 1) c.label("cancelled at once");
  if (k == n) c.label("cancelled at the last test");
  if (s->length) c.nontrivial(eng::hash_str(sfmt("%ld %s", k, show(f).c_str()), t.im.hash()));
}
static eng::Reg reg_s02({"S02", "a picture with options traced without callbacks, with progress, message and cancel callbacks that never cancel, and with cancellation from a drawn test on (any of the tests the first trace made, preferring the first and last ones); non-trivial: the picture has curves; distinct by picture, options and cancellation point", s02, 20000, 300000, 30, {"the cancel callback keeps answering true once it has", "leaks are counted in heap blocks through allocator hooks, in the second of two identical runs"}});

// ---- S03
// What each object is expected to hold, kept apart from the object itself.
struct FitModel {
  at_fitting_opts_type v;
  bool has_bg;
  RGB bg;
};
FitModel fit_defaults() {
  FitModel m;
  memset(&m, 0, sizeof m);
  m.v.corner_always_threshold = 60;
  m.v.corner_surround = 4;
  m.v.corner_threshold = 100;
  m.v.error_threshold = 2.0f;
  m.v.filter_iterations = 4;
  m.v.line_reversion_threshold = .01f;
  m.v.line_threshold = 1;
  m.v.tangent_surround = 3;
  m.v.despeckle_tightness = 2.0f;
  m.v.noise_removal = .99f;
  m.v.width_weight_factor = 6.0f;
  return m;
}
std::string differs(const FitModel &m, const at_fitting_opts_type *o) {
#define SAME(f) if (!(m.v.f == o->f)) return sfmt(#f " is %g, expected %g", (double)o->f, (double)m.v.f)
  SAME(charcode);
  SAME(color_count);
  SAME(corner_always_threshold);
  SAME(corner_surround);
  SAME(corner_threshold);
  SAME(error_threshold);
  SAME(filter_iterations);
  SAME(line_reversion_threshold);
  SAME(line_threshold);
  SAME(remove_adjacent_corners);
  SAME(remove_knees);
  SAME(tangent_surround);
  SAME(despeckle_level);
  SAME(despeckle_tightness);
  SAME(noise_removal);
  SAME(centerline);
  SAME(preserve_width);
  SAME(width_weight_factor);
#undef SAME
  if (!m.has_bg != !o->background_color) return o->background_color ? "a background colour is set" : "no background colour is set";
  if (m.has_bg && !(RGB{o->background_color->r, o->background_color->g, o->background_color->b} == m.bg)) return "another background colour";
  return "";
}
struct Fit {
  at_fitting_opts_type *o;
  FitModel m;
};
struct In {
  at_input_opts_type *o;
  unsigned charcode;
  bool has_bg;
  RGB bg;
};
struct Out {
  at_output_opts_type *o;
  int dpi;
};
struct Bmp {
  at_bitmap *b;
  Image m;
};
struct Crv {
  at_splines_type *s;
  uint64_t m;
  bool center;
};
struct World {
  std::vector<Fit> fit;
  std::vector<In> in;
  std::vector<Out> out;
  std::vector<Bmp> bmp;
  std::vector<Crv> crv;
  void verify(const char *op) {
    for (size_t i = 0; i < fit.size(); i++) {
      std::string d = differs(fit[i].m, fit[i].o);
      REQUIRE(d.empty(), "options-changed", "after %s: fitting options %zu: %s", op, i, d.c_str());
    }
    for (size_t i = 0; i < in.size(); i++) {
      const In &n = in[i];
      REQUIRE(n.o->charcode == n.charcode, "options-changed", "after %s: input options %zu: charcode is %u, expected %u", op, i, n.o->charcode, n.charcode);
      REQUIRE(!n.has_bg == !n.o->background_color, "options-changed", "after %s: input options %zu: background colour set or lost", op, i);
      if (n.has_bg) REQUIRE((RGB{n.o->background_color->r, n.o->background_color->g, n.o->background_color->b} == n.bg), "options-changed", "after %s: input options %zu: another background colour", op, i);
    }
    for (size_t i = 0; i < out.size(); i++) REQUIRE(out[i].o->dpi == out[i].dpi, "options-changed", "after %s: output options %zu: dpi is %d, expected %d", op, i, out[i].o->dpi, out[i].dpi);
    for (size_t i = 0; i < bmp.size(); i++) {
      REQUIRE(at_bitmap_get_width(bmp[i].b) == bmp[i].m.w && at_bitmap_get_height(bmp[i].b) == bmp[i].m.h && at_bitmap_get_planes(bmp[i].b) == bmp[i].m.np, "bitmap-changed", "after %s: bitmap %zu has another size", op, i);
      REQUIRE(from_bitmap(bmp[i].b).d == bmp[i].m.d, "bitmap-changed", "after %s: bitmap %zu has other pixels", op, i);
    }
    for (size_t i = 0; i < crv.size(); i++) REQUIRE(hash_splines(crv[i].s) == crv[i].m, "curves-changed", "after %s: curves %zu differ", op, i);
  }
  void clear() {
    for (auto &x : fit) at_fitting_opts_free(x.o);
    for (auto &x : in) at_input_opts_free(x.o);
    for (auto &x : out) at_output_opts_free(x.o);
    for (auto &x : bmp) at_bitmap_free(x.b);
    for (auto &x : crv) at_splines_free(x.s);
    fit.clear(), in.clear(), out.clear(), bmp.clear(), crv.clear();
  }
};
// One operation with everything it needs, so that the same sequence can be run twice.
struct Op {
  int kind;
  unsigned a, b;
  uint32_t v;
  RGB col;
  TraceCase t;
  std::string fmt;
  Bytes file;
  std::string str() const;
};
enum { NEWFIT, COPYFIT, SETFIT, BGFIT, FREEFIT, NEWIN, COPYIN, SETIN, FREEIN, NEWOUT, COPYOUT, SETOUT, FREEOUT, NEWBMP, READBMP, COPYBMP, SETBMP, FREEBMP, TRACE, WRITE, FREECRV, COLOR, NOPS };
const char *const kOps[] = {"new fitting options", "copy fitting options", "change a fitting option", "change the background", "free fitting options", "new input options", "copy input options", "change input options", "free input options", "new output options", "copy output options", "change output options", "free output options", "new bitmap", "read bitmap", "copy bitmap", "change a pixel", "free bitmap", "trace", "write", "free curves", "colours"};
std::string Op::str() const {
  std::string r = sfmt("%s %u %u %u", kOps[kind], a, b, v);
  if (kind == NEWBMP) r += " " + t.im.dump();
  if (kind == READBMP) r += " " + fmt + " " + hex(file, 600);
  if (kind == WRITE) r += " " + fmt;
  return r;
}
void set_field(at_fitting_opts_type *o, uint32_t v) {
  unsigned x = v / 32;
  switch (v % 16) {
    case 0: o->color_count = x % 14 ? 0 : 1 + x % 8; break;
    case 1: o->corner_always_threshold = (float)(x % 181); break;
    case 2: o->corner_surround = 1 + x % 8; break;
    case 3: o->corner_threshold = (float)(x % 181); break;
    case 4: o->error_threshold = (float)(.25 + (x % 40) / 8.); break;
    case 5: o->filter_iterations = x % 7; break;
    case 6: o->line_reversion_threshold = (float)((x % 50) / 100.); break;
    case 7: o->line_threshold = (float)((x % 40) / 10.); break;
    case 8: (x % 4 < 2 ? o->remove_adjacent_corners : o->remove_knees) = x % 2; break;
    case 9: o->tangent_surround = 1 + x % 8; break;
    case 10: o->despeckle_level = x % 21; break;
    case 11: o->despeckle_tightness = (float)((x % 81) / 10.); break;
    case 12: o->noise_removal = (float)((x % 101) / 100.); break;
    case 13: o->centerline = x % 2; break;
    case 14: o->preserve_width = x % 2; break;
    case 15: o->width_weight_factor = (float)(1 + (x % 90) / 10.); break;
  }
}
template <class T> T *nth(std::vector<T> &v, unsigned i) { return v.empty() ? nullptr : &v[i % v.size()]; }
bool apply(Ctx &c, World &w, const Op &op, bool count) {
  const size_t kMax = 5;
  auto done = [&] {
    if (count) c.label(kOps[op.kind]);
    return true;
  };
  switch (op.kind) {
    case NEWFIT:
      if (w.fit.size() >= kMax) return false;
      w.fit.push_back({at_fitting_opts_new(), fit_defaults()});
      return done();
    case COPYFIT: {
      REQUIRE(!at_fitting_opts_copy(nullptr), "copy", "a copy of no options is something");
      Fit *f = nth(w.fit, op.a);
      if (!f || w.fit.size() >= kMax) return false;
      Fit g{at_fitting_opts_copy(f->o), f->m};
      REQUIRE(g.o != f->o && (!g.m.has_bg || g.o->background_color != f->o->background_color), "shared", "a copy of fitting options shares storage with its original");
      w.fit.push_back(g);
      return done();
    }
    case SETFIT: {
      Fit *f = nth(w.fit, op.a);
      if (!f) return false;
      set_field(f->o, op.v), set_field(&f->m.v, op.v);
      return done();
    }
    case BGFIT: {
      Fit *f = nth(w.fit, op.a);
      if (!f) return false;
      if (op.v % 3 == 0 || !f->o->background_color) {
        at_color_free(f->o->background_color);
        f->o->background_color = op.v % 4 == 1 ? nullptr : at_color_new(op.col.r, op.col.g, op.col.b);
        f->m.has_bg = op.v % 4 != 1;
      } else at_color_set(f->o->background_color, op.col.r, op.col.g, op.col.b);
      f->m.bg = op.col;
      return done();
    }
    case FREEFIT: {
      if (w.fit.empty()) return false;
      size_t i = op.a % w.fit.size();
      at_fitting_opts_free(w.fit[i].o);
      w.fit.erase(w.fit.begin() + i);
      return done();
    }
    case NEWIN:
      if (w.in.size() >= kMax) return false;
      w.in.push_back({at_input_opts_new(), 0, false, RGB{}});
      return done();
    case COPYIN: {
      In *f = nth(w.in, op.a);
      if (!f || w.in.size() >= kMax) return false;
      In g = *f;
      g.o = at_input_opts_copy(f->o);
      REQUIRE(g.o != f->o && (!g.has_bg || g.o->background_color != f->o->background_color), "shared", "a copy of input options shares storage with its original");
      w.in.push_back(g);
      return done();
    }
    case SETIN: {
      In *f = nth(w.in, op.a);
      if (!f) return false;
      if (op.v % 2) f->charcode = f->o->charcode = op.v / 2 % 300;
      else {
        at_color_free(f->o->background_color);
        f->has_bg = op.v % 8 != 0;
        f->o->background_color = f->has_bg ? at_color_new(op.col.r, op.col.g, op.col.b) : nullptr;
        f->bg = op.col;
      }
      return done();
    }
    case FREEIN: {
      if (w.in.empty()) return false;
      size_t i = op.a % w.in.size();
      at_input_opts_free(w.in[i].o);
      w.in.erase(w.in.begin() + i);
      return done();
    }
    case NEWOUT:
      if (w.out.size() >= kMax) return false;
      w.out.push_back({at_output_opts_new(), 72});
      return done();
    case COPYOUT: {
      Out *f = nth(w.out, op.a);
      if (!f || w.out.size() >= kMax) return false;
      Out g{at_output_opts_copy(f->o), f->dpi};
      REQUIRE(g.o != f->o, "shared", "a copy of output options is the original");
      w.out.push_back(g);
      return done();
    }
    case SETOUT: {
      Out *f = nth(w.out, op.a);
      if (!f) return false;
      f->o->dpi = f->dpi = 1 + op.v % 600;
      return done();
    }
    case FREEOUT: {
      if (w.out.empty()) return false;
      size_t i = op.a % w.out.size();
      at_output_opts_free(w.out[i].o);
      w.out.erase(w.out.begin() + i);
      return done();
    }
    case NEWBMP: {
      if (w.bmp.size() >= kMax) return false;
      at_bitmap *b = at_bitmap_new(op.t.im.w, op.t.im.h, op.t.im.np);
      REQUIRE(b && at_bitmap_get_width(b) == op.t.im.w && at_bitmap_get_height(b) == op.t.im.h && at_bitmap_get_planes(b) == op.t.im.np, "bitmap", "a new %dx%dx%d bitmap has another size", op.t.im.w, op.t.im.h, op.t.im.np);
      memcpy(b->bitmap, op.t.im.d.data(), op.t.im.d.size());
      for (int y = 0; y < op.t.im.h; y++)
        for (int x = 0; x < op.t.im.w; x++) {
          at_color k;
          at_bitmap_get_color(b, y, x, &k);
          RGB e = op.t.im.get(x, y);
          REQUIRE((RGB{k.r, k.g, k.b} == e), "bitmap", "pixel (%d,%d) reads back as %02x%02x%02x instead of %06x", x, y, k.r, k.g, k.b, e.u());
          REQUIRE(at_bitmap_equal_color(b, y, x, &k), "bitmap", "pixel (%d,%d) does not equal its own colour", x, y);
          int ch = op.v % 3;
          (ch == 0 ? k.r : ch == 1 ? k.g : k.b) ^= 1 << op.v % 8;
          REQUIRE(!at_bitmap_equal_color(b, y, x, &k), "bitmap", "pixel (%d,%d) equals a colour differing in component %d", x, y, ch);
        }
      w.bmp.push_back({b, op.t.im});
      return done();
    }
    case READBMP: {
      if (w.bmp.size() >= kMax) return false;
      In *f = op.b % 2 ? nth(w.in, op.a) : nullptr;
      Msgs m;
      at_bitmap *b = read_bytes(c, op.fmt.c_str(), op.file, m, f ? f->o : nullptr);
      if (!b) return false;
      Image im = from_bitmap(b);
      if (im.w == 0 || im.h == 0) at_bitmap_free(b);
      else w.bmp.push_back({b, im});
      return done();
    }
    case COPYBMP: {
      Bmp *f = nth(w.bmp, op.a);
      if (!f || w.bmp.size() >= kMax) return false;
      Bmp g{at_bitmap_copy(f->b), f->m};
      REQUIRE(g.b != f->b && g.b->bitmap != f->b->bitmap, "shared", "a copy of a bitmap shares storage with its original");
      w.bmp.push_back(g);
      return done();
    }
    case SETBMP: {
      Bmp *f = nth(w.bmp, op.a);
      if (!f || f->m.d.empty()) return false;
      size_t i = op.v % f->m.d.size();
      f->b->bitmap[i] ^= 0x5a, f->m.d[i] ^= 0x5a;
      return done();
    }
    case FREEBMP: {
      if (w.bmp.empty()) return false;
      size_t i = op.a % w.bmp.size();
      at_bitmap_free(w.bmp[i].b);
      w.bmp.erase(w.bmp.begin() + i);
      return done();
    }
    case TRACE: {
      Bmp *b = nth(w.bmp, op.a);
      Fit *f = nth(w.fit, op.b);
      if (!b || !f || w.crv.size() >= kMax || b->m.np == 2) return false;
      if (b->m.w * b->m.h > 2500) return false;
      Msgs m;
      at_splines_type *s = at_splines_new(b->b, f->o, op.v % 2 ? msg_cb : nullptr, &m);
      REQUIRE(s, "no-result", "tracing gave no result: %s", m.last.c_str());
      REQUIRE(!s->background_color || s->background_color != f->o->background_color, "shared", "the curves share the background colour with the options");
      b->m = from_bitmap(b->b);  // documented: the bitmap is modified
      w.crv.push_back({s, hash_splines(s), f->m.v.centerline});
      return done();
    }
    case WRITE: {
      Crv *k = nth(w.crv, op.a);
      if (!k || (op.fmt == "pov" && k->center)) return false;
      Out *o = op.v % 3 ? nth(w.out, op.b) : nullptr;
      Msgs m;
      write_mem(op.fmt.c_str(), k->s, op.v % 2 ? "name" : nullptr, o ? o->o : nullptr, op.v % 5 ? &m : nullptr);
      return done();
    }
    case FREECRV: {
      if (w.crv.empty()) return false;
      size_t i = op.a % w.crv.size();
      at_splines_free(w.crv[i].s);
      w.crv.erase(w.crv.begin() + i);
      return done();
    }
    case COLOR: {
      at_color *a = at_color_new(op.col.r, op.col.g, op.col.b), *b = at_color_copy(a);
      REQUIRE(!at_color_copy(nullptr), "colour", "a copy of no colour is something");
      REQUIRE(a != b && at_color_equal(a, b) && at_color_equal(b, a) && at_color_equal(a, a), "colour", "a copy of %06x does not equal it", op.col.u());
      int ch = op.v % 3, bit = 1 << op.v / 3 % 8;
      RGB o = op.col;
      (ch == 0 ? o.r : ch == 1 ? o.g : o.b) ^= bit;
      at_color_set(b, o.r, o.g, o.b);
      REQUIRE(!at_color_equal(a, b) && !at_color_equal(b, a), "colour", "%06x equals %06x", op.col.u(), o.u());
      REQUIRE(a->r == op.col.r && a->g == op.col.g && a->b == op.col.b && b->r == o.r && b->g == o.g && b->b == o.b, "colour", "components are lost");
      at_color_free(a), at_color_free(b);
      return done();
    }
  }
  return false;
}
void s03(Ctx &c) {
  init_lib();
  int n = c.weighted({1, 3, 3}) * 12 + c.range(2, 12);
  std::vector<Op> ops(n);
  bool ready = !c.chance(1, 4);  // start with something to work on
  for (Op &op : ops) {
    size_t i = &op - &ops[0];
    op.kind = ready && i < 3 ? (i == 0 ? NEWFIT : i == 1 ? NEWBMP : TRACE) : (int)c.weighted({4, 4, 5, 4, 2, 1, 1, 2, 1, 1, 1, 1, 1, 5, 3, 3, 2, 2, 7, 6, 2, 1});
    op.a = c.choose(8), op.b = c.choose(8), op.v = (uint32_t)c.choose(1 << 20);
    op.col = gen_color(c);
    if (op.kind == NEWBMP) gen_case(c, op.t, 16, Opt::plain);
    if (op.kind == READBMP) {
      op.fmt = c.pick(kReaders);
      op.file = base_file(c, op.fmt);
      if (c.chance(1, 5)) mutate(c, op.file, op.fmt);
      if (declared_pixels(op.fmt, op.file) > 2500) op.kind = COLOR;
    }
    if (op.kind == WRITE) op.fmt = c.pick(kWriters);
    c.note(op.str());
  }
  std::string what;
  for (int round = 0; round < 3; round++) {
    long live = eng::live_blocks();
    {
      World w;
      uint64_t h = 0;
      unsigned traces = 0, writes = 0;
      for (size_t i = 0; i < ops.size(); i++) {
        bool did = apply(c, w, ops[i], round == 0);
        if (!did) continue;
        if (round == 0) {
          w.verify(sfmt("operation %zu (%s)", i, kOps[ops[i].kind]).c_str());
          if (ops[i].kind == TRACE) traces++, h = eng::hash_bytes(&w.crv.back().m, 8, h);
          if (ops[i].kind == WRITE) writes++;
        }
      }
      w.clear();
      if (round == 0 && traces && writes) c.nontrivial(h);
    }
    long left = eng::live_blocks() - live;
    if (round == 2) REQUIRE(left <= 0, "leak", "%ld heap blocks remain allocated after every object was released", left);
  }
}
static eng::Reg reg_s03({"S03", "sequences of 2 to 36 operations (create, copy, change, free options, bitmaps and colours; read, trace, write, free curves) on a pool of objects, every object compared with a model of its contents after each operation, everything released at the end, the sequence run three times and heap blocks counted over the third; non-trivial: the sequence traced and wrote curves; distinct by the curves traced", s03, 15000, 250000, 30, {"a bitmap may be changed by tracing it (documented), so its model is refreshed then", "leaks are counted in heap blocks through allocator hooks, in the third of three identical runs"}});

// finding: metrics of a GF character stay for later UGS output of other pictures
bool f_ugs(Ctx &c) {
  init_lib();
  Image im(12, 12, 3);
  for (auto &v : im.d) v = 255;
  for (int y = 3; y < 9; y++)
    for (int x = 3; x < 9; x++) im.set(x, y, RGB{0, 0, 0});
  Msgs m;
  FitOpts fo;
  Splines s(trace(im, fo.o, m));
  std::string a = write_mem("ugs", s.s, "name");
  for (int i = 0; i < 20; i++) {
    at_bitmap *b = read_bytes(c, "gf", gen_gf(c).file, m);
    if (b) at_bitmap_free(b);
    if (write_mem("ugs", s.s, "name") != a) return true;
  }
  return false;
}
static eng::RegF reg_f_ugs({"S01", "ugs-metrics", f_ugs});
}  // namespace
