// Property-based testing engine used by every check in /verif.
//
// A property is a function that draws every random decision from a Src (the
// recorded choice sequence) and throws Fail when its oracle rejects what the
// code under test did.  Each case runs in a forked child so crashes, exits and
// static state of the code under test stay inside the case.  A failing choice
// sequence is shrunk (span deletion, value lowering) and becomes the replay.
#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>

namespace eng {

struct Fail {
  std::string kind, msg;
};

[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define REQUIRE(cond, kind, ...) do { if (!(cond)) eng::fail(kind, __VA_ARGS__); } while (0)

std::string sfmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// Source of choices.
class Src {
 public:
  // uniform in [0,n)
  uint64_t choose(uint64_t n);
  // inclusive range
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)choose((uint64_t)(hi - lo) + 1); }
  // true with probability num/den; the shrunk value is false
  bool chance(unsigned num, unsigned den) { return choose(den) >= den - num; }
  bool coin() { return choose(2) == 1; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }
  // weighted index
  unsigned weighted(std::initializer_list<unsigned> w);
  uint8_t byte() { return (uint8_t)choose(256); }
  // small numbers more likely than large ones, inclusive bound
  int64_t skewed(int64_t lo, int64_t hi);
  double real(double lo, double hi, unsigned steps = 1000) { return lo + (hi - lo) * (double)choose(steps + 1) / steps; }
  uint64_t state = 0;
  bool replaying = false;
  const uint64_t *rp = nullptr;
  size_t rn = 0, ri = 0;
  // recording target (shared memory)
  uint64_t *rec = nullptr;
  size_t cap = 0;
  uint64_t *nrec = nullptr;
  // byte driven (libFuzzer)
  bool bytes_mode = false;
  const uint8_t *bp = nullptr;
  size_t bn = 0, bi = 0;
};

class Ctx : public Src {
 public:
  void label(const char *name);              // classify the case
  void note(const std::string &s);           // human readable part of the case
  void nontrivial(uint64_t hash);            // case is non-trivial, hash identifies it
  void digest(uint64_t v);                   // value compared between build variants
  void count(const char *name, uint64_t n);  // add to a counter
  const char *scratch();                     // per-worker scratch directory
  const char *tier = "quick";
  void *shared = nullptr;
};

struct Prop {
  const char *id;
  const char *rule;
  void (*fn)(Ctx &);
  unsigned quick_cases, thorough_cases;
  unsigned cpu_limit_s;  // per case CPU budget
  std::vector<std::string> assumptions;
};

void add(const Prop &p);
struct Reg {
  explicit Reg(const Prop &p) { add(p); }
};

// Known findings: probe returns true when the listed defect still shows.
struct Finding {
  const char *property, *id;
  bool (*probe)(Ctx &);
};
void add_finding(const Finding &f);
struct RegF {
  explicit RegF(const Finding &f) { add_finding(f); }
};

uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

// live heap blocks, counted through allocator hooks (0 when not available)
long live_blocks();

int main_(int argc, char **argv);
const Prop *find(const char *id);
}  // namespace eng
#endif
