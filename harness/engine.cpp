#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <set>
#include <sstream>
#include <unordered_set>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));

namespace eng {

static std::vector<Prop> &props() {
  static std::vector<Prop> v;
  return v;
}
static std::vector<Finding> &findings() {
  static std::vector<Finding> v;
  return v;
}
void add(const Prop &p) { props().push_back(p); }
void add_finding(const Finding &f) { findings().push_back(f); }
const Prop *find(const char *id) {
  for (auto &p : props())
    if (!strcmp(p.id, id)) return &p;
  return nullptr;
}

std::string sfmt(const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
void fail(const char *kind, const char *fmt, ...) {
  char buf[1800];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Fail{kind, buf};
}

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ull;
  }
  return h;
}

static uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t Src::choose(uint64_t n) {
  if (n <= 1) n = 1;
  uint64_t v;
  if (bytes_mode) {
    unsigned nb = n <= 1 ? 0 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
    v = 0;
    for (unsigned i = 0; i < nb; i++) v = (v << 8) | (bi < bn ? bp[bi++] : 0);
    return v % n;
  }
  if (replaying) {
    v = ri < rn ? rp[ri] : 0;
    ri++;
    if (v >= n) v = n - 1;
  } else {
    uint64_t limit = UINT64_MAX - UINT64_MAX % n;
    do v = splitmix(state);
    while (v >= limit);
    v %= n;
  }
  if (rec && *nrec < cap) rec[(*nrec)++] = v;
  return v;
}
unsigned Src::weighted(std::initializer_list<unsigned> w) {
  unsigned sum = 0;
  for (unsigned x : w) sum += x;
  uint64_t r = choose(sum);
  unsigned i = 0;
  for (unsigned x : w) {
    if (r < x) return i;
    r -= x;
    i++;
  }
  return i - 1;
}
int64_t Src::skewed(int64_t lo, int64_t hi) {
  switch (choose(4)) {
    case 0: return range(lo, std::min(hi, lo + 3));
    case 1: return range(lo, std::min(hi, lo + (hi - lo) / 4));
    case 2: return range(lo, hi);
    default: return range(std::max(lo, hi - 3), hi);
  }
}

enum { MAXCHOICE = 1 << 18, MAXLAB = 48, DESC = 16384 };
struct Shm {
  volatile int finished, failed, nontriv;
  volatile uint64_t hash, dig;
  char kind[64];
  char msg[2048];
  uint64_t ndesc;
  char desc[DESC];
  uint64_t nlab;
  char lab[MAXLAB][40];
  uint64_t labn[MAXLAB];
  uint64_t nchoice;
  uint64_t choice[MAXCHOICE];
};
struct Global {
  volatile long minfail;   // lowest failing index, LONG_MAX when none
};

static std::string g_scratch = "/tmp";
static std::string g_log;

void Ctx::label(const char *name) { count(name, 1); }
void Ctx::count(const char *name, uint64_t n) {
  Shm *s = (Shm *)shared;
  if (!s) return;
  for (uint64_t i = 0; i < s->nlab; i++)
    if (!strncmp(s->lab[i], name, 39)) {
      s->labn[i] += n;
      return;
    }
  if (s->nlab < MAXLAB) {
    strncpy(s->lab[s->nlab], name, 39);
    s->lab[s->nlab][39] = 0;
    s->labn[s->nlab++] = n;
  }
}
void Ctx::note(const std::string &t) {
  Shm *s = (Shm *)shared;
  if (!s) return;
  size_t n = std::min<size_t>(t.size(), DESC - 2 - s->ndesc);
  memcpy(s->desc + s->ndesc, t.data(), n);
  s->ndesc += n;
  if (s->ndesc < DESC - 1) s->desc[s->ndesc++] = '\n';
  s->desc[s->ndesc] = 0;
}
void Ctx::nontrivial(uint64_t h) {
  Shm *s = (Shm *)shared;
  if (!s) return;
  s->nontriv = 1;
  s->hash = h;
}
void Ctx::digest(uint64_t v) {
  Shm *s = (Shm *)shared;
  if (s) s->dig = (s->dig ^ v) * 1099511628211ull;
}
const char *Ctx::scratch() { return g_scratch.c_str(); }

static volatile long g_live;
static void on_malloc(const volatile void *, size_t) { g_live = g_live + 1; }
static void on_free(const volatile void *p) {
  if (p) g_live = g_live - 1;
}
long live_blocks() { return g_live; }

static void child_setup(unsigned cpu) {
  int fd = open("/dev/null", O_RDWR);
  if (fd >= 0) {
    dup2(fd, 0);
    dup2(fd, 1);
    if (g_log.empty()) dup2(fd, 2);
    else {
      int lf = open(g_log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (lf >= 0) dup2(lf, 2);
    }
  }
  struct rlimit rl = {cpu, cpu + 2};
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  signal(SIGXCPU, SIG_DFL);
  if (__sanitizer_install_malloc_and_free_hooks) {
    static bool done = false;
    if (!done) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    done = true;
  }
}

static void reset(Shm *s) {
  s->finished = s->failed = s->nontriv = 0;
  s->hash = s->dig = 0;
  s->kind[0] = s->msg[0] = 0;
  s->ndesc = 0;
  s->desc[0] = 0;
  s->nlab = 0;
  s->nchoice = 0;
}

static void body(const Prop &p, Ctx &c, Shm *s) {
  try {
    p.fn(c);
  } catch (const Fail &f) {
    s->failed = 1;
    snprintf(s->kind, sizeof s->kind, "%s", f.kind.c_str());
    snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
  } catch (const std::exception &e) {
    s->failed = 1;
    snprintf(s->kind, sizeof s->kind, "exception");
    snprintf(s->msg, sizeof s->msg, "unexpected C++ exception: %s", e.what());
  }
  s->finished = 1;
}

// Runs one case in a child. choices==nullptr: random from seed.
static bool run_case(const Prop &p, Shm *s, uint64_t seed, const std::vector<uint64_t> *choices, const char *tier, bool keep_choices) {
  reset(s);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    child_setup(p.cpu_limit_s);
    Ctx c;
    c.shared = s;
    c.tier = tier;
    c.state = seed;
    if (choices) {
      c.replaying = true;
      c.rp = choices->data();
      c.rn = choices->size();
    }
    if (keep_choices) {
      c.rec = s->choice;
      c.cap = MAXCHOICE;
      c.nrec = &s->nchoice;
    }
    body(p, c, s);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {  // the check itself could not do its work
    fprintf(stderr, "error: a case could not be set up\n");
    _exit(3);
  }
  if (!s->finished) {
    s->failed = 1;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) {
      snprintf(s->kind, sizeof s->kind, "nontermination");
      snprintf(s->msg, sizeof s->msg, "case used more than %u s of CPU time", p.cpu_limit_s);
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      snprintf(s->kind, sizeof s->kind, "killed");
      snprintf(s->msg, sizeof s->msg, "case was killed");
    } else if (WIFSIGNALED(st)) {
      snprintf(s->kind, sizeof s->kind, "crash");
      snprintf(s->msg, sizeof s->msg, "terminated by signal %d", WTERMSIG(st));
    } else if (WEXITSTATUS(st) == 99) {
      snprintf(s->kind, sizeof s->kind, "crash");
      snprintf(s->msg, sizeof s->msg, "memory or undefined-behaviour error reported by the sanitizer");
    } else {
      snprintf(s->kind, sizeof s->kind, "exit");
      snprintf(s->msg, sizeof s->msg, "the library ended the process with exit status %d", WEXITSTATUS(st));
    }
  }
  return s->failed != 0;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else o += ch;
  }
  return o;
}

struct Sample {
  long idx;
  std::string desc;
};

struct WorkerOut {
  uint64_t evals = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes;
  std::vector<Sample> samples;
};

static void put_str(FILE *f, const std::string &s) {
  uint32_t n = s.size();
  fwrite(&n, 4, 1, f);
  fwrite(s.data(), 1, n, f);
}
static std::string get_str(FILE *f) {
  uint32_t n = 0;
  if (fread(&n, 4, 1, f) != 1) return "";
  std::string s(n, 0);
  if (n && fread(&s[0], 1, n, f) != n) return "";
  return s;
}

static void rm_rf(const std::string &d) {
  DIR *dir = opendir(d.c_str());
  if (dir) {
    while (dirent *e = readdir(dir)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p);
      else unlink(p.c_str());
    }
    closedir(dir);
  }
  rmdir(d.c_str());
}

static uint64_t case_seed(uint64_t seed, const char *id, long i) {
  uint64_t s = seed * 0x9e3779b97f4a7c15ull + hash_str(id);
  splitmix(s);
  s ^= (uint64_t)i * 0xd6e8feb86659fd93ull;
  splitmix(s);
  return splitmix(s);
}

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void write_choices(FILE *f, const std::vector<uint64_t> &c) {
  fprintf(f, "choices=");
  for (size_t i = 0; i < c.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)c[i]);
  fprintf(f, "\n");
}

static std::vector<uint64_t> shrink(const Prop &p, Shm *s, std::vector<uint64_t> best, const std::string &kind, const char *tier, unsigned budget, double wall) {
  unsigned used = 0;
  double end = now() + wall;
  auto tryit = [&](const std::vector<uint64_t> &c) {
    if (used >= budget || now() > end) return false;
    used++;
    if (run_case(p, s, 0, &c, tier, true) && kind == s->kind) {
      std::vector<uint64_t> got(s->choice, s->choice + s->nchoice);
      while (!got.empty() && got.back() == 0) got.pop_back();
      std::vector<uint64_t> cc = c;
      while (!cc.empty() && cc.back() == 0) cc.pop_back();
      if (got.size() < cc.size() || (got.size() == cc.size() && got < cc)) cc = got;
      auto sz = [](const std::vector<uint64_t> &v) {
        double t = 0;
        for (auto x : v) t += std::log2(1.0 + (double)x);
        return t;
      };
      if (cc.size() < best.size() || (cc.size() == best.size() && sz(cc) < sz(best))) {
        best = cc;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && used < budget && now() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size();) {
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (tryit(c)) progress = true;
        else i += len;
        if (used >= budget || now() > end) break;
      }
      if (used >= budget || now() > end) break;
    }
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size(); i += len) {
        std::vector<uint64_t> c = best;
        bool any = false;
        for (size_t k = i; k < i + len; k++) {
          if (c[k]) any = true;
          c[k] = 0;
        }
        if (any && tryit(c)) progress = true;
        if (used >= budget || now() > end) break;
      }
      if (used >= budget || now() > end) break;
    }
    for (size_t i = 0; i < best.size(); i++) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && used < budget && now() < end) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        std::vector<uint64_t> c = best;
        c[i] = mid;
        if (tryit(c)) progress = true;
        else lo = mid + 1;
      }
    }
  }
  return best;
}

static int replay(const char *file, bool quiet) {
  std::ifstream in(file);
  if (!in) {
    fprintf(stderr, "cannot read %s\n", file);
    return 3;
  }
  std::string line, id, tier = "quick";
  std::vector<uint64_t> ch;
  while (std::getline(in, line)) {
    if (line.rfind("property=", 0) == 0) id = line.substr(9);
    if (line.rfind("tier=", 0) == 0) tier = line.substr(5);
    if (line.rfind("choices=", 0) == 0) {
      std::stringstream ss(line.substr(8));
      std::string t;
      while (std::getline(ss, t, ','))
        if (!t.empty()) ch.push_back(strtoull(t.c_str(), 0, 10));
    }
  }
  const Prop *p = find(id.c_str());
  if (!p) {
    fprintf(stderr, "unknown property %s\n", id.c_str());
    return 3;
  }
  Shm *s = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string log = g_scratch + "/replay.log";
  g_log = log;
  bool f = run_case(*p, s, 0, &ch, tier.c_str(), true);
  if (!quiet) {
    printf("%s\n", s->desc);
    if (f) {
      printf("FAILED %s: %s\n", s->kind, s->msg);
      std::ifstream l(log);
      std::string t;
      int n = 0;
      while (std::getline(l, t) && n++ < 60) printf("| %s\n", t.c_str());
    } else printf("held\n");
  }
  return f ? 1 : 0;
}

int main_(int argc, char **argv) {
  if (argc < 2) {
    fprintf(stderr, "usage: vprop run ID --seed N --tier T --evidence F --replay F [--cases N] [--workers N] | replay FILE | list | probe ID\n");
    return 2;
  }
  std::string cmd = argv[1];
  std::map<std::string, std::string> opt;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[++i];
    else pos.push_back(a);
  }
  if (cmd == "list") {
    for (auto &p : props()) printf("%s %u %u\n", p.id, p.quick_cases, p.thorough_cases);
    return 0;
  }
  char tmpl[] = "/tmp/vprop-XXXXXX";
  std::string base = opt.count("scratch") ? opt["scratch"] : std::string(mkdtemp(tmpl));
  mkdir(base.c_str(), 0700);
  g_scratch = base;
  struct Cleaner {
    std::string d;
    pid_t owner;
    ~Cleaner() {
      if (getpid() == owner) rm_rf(d);
    }
  } cleaner{base, getpid()};
  if (cmd == "replay") return replay(pos.at(0).c_str(), opt.count("quiet"));
  const Prop *pp = pos.empty() ? nullptr : find(pos[0].c_str());
  if (cmd == "probe") {
    // print the ids of listed findings that still show
    for (auto &f : findings()) {
      if (pos.empty() || strcmp(f.property, pos[0].c_str())) continue;
      int *res = (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      *res = 1;
      pid_t pid = fork();
      if (!pid) {
        child_setup(60);
        Ctx c;
        bool shows = true;
        try {
          shows = f.probe(c);
        } catch (...) {
          shows = true;
        }
        *res = shows;
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      printf("%s %s\n", f.id, *res ? "shows" : "absent");
    }
    return 0;
  }
  if (!pp) {
    fprintf(stderr, "unknown property\n");
    return 3;
  }
  const Prop &p = *pp;
  std::string tier = opt.count("tier") ? opt["tier"] : "quick";
  uint64_t seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), 0, 10) : 1;
  long cases = opt.count("cases") ? atol(opt["cases"].c_str()) : tier == "quick" ? p.quick_cases : p.thorough_cases;
  int W = opt.count("workers") ? atoi(opt["workers"].c_str()) : 8;
  long start = opt.count("start") ? atol(opt["start"].c_str()) : 0;
  std::string digests = opt.count("digests") ? opt["digests"] : "";
  double t0 = now();
  Global *G = (Global *)mmap(0, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::set<long> skip;  // cases that failed but did not reproduce
again_from_start:
  G->minfail = LONG_MAX;
  std::vector<pid_t> kids;
  for (int w = 0; w < W; w++) {
    pid_t pid = fork();
    if (pid < 0) {
      perror("fork");
      return 3;
    }
    if (!pid) {
      g_scratch = base + "/w" + std::to_string(w);
      mkdir(g_scratch.c_str(), 0700);
      Shm *s = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      WorkerOut o;
      FILE *df = digests.empty() ? nullptr : fopen((base + "/dig" + std::to_string(w)).c_str(), "wb");
      for (long i = start + w; i < start + cases; i += W) {
        if (i > G->minfail) break;
        if (skip.count(i)) continue;
        bool f = run_case(p, s, case_seed(seed, p.id, i), nullptr, tier.c_str(), false);
        o.evals++;
        if (df) {
          uint64_t rec[2] = {(uint64_t)i, s->dig};
          fwrite(rec, 16, 1, df);
        }
        for (uint64_t k = 0; k < s->nlab; k++) o.labels[s->lab[k]] += s->labn[k];
        if (s->nontriv && !f) {
          bool fresh = o.hashes.insert((uint64_t)s->hash).second;
          if (fresh && o.samples.size() < 3) o.samples.push_back({i, s->desc});
        }
        if (f && !strcmp(s->kind, "killed")) {
          // killed from outside (memory pressure): not evidence of anything
          o.labels["killed-inconclusive"]++;
          continue;
        }
        if (f) {
          if (opt.count("verbose")) fprintf(stderr, "case %ld: %s: %s\n", i, s->kind, s->msg);
          long cur;
          do {
            cur = G->minfail;
            if (i >= cur) break;
          } while (!__sync_bool_compare_and_swap(&G->minfail, cur, i));
          break;
        }
      }
      if (df) fclose(df);
      FILE *f = fopen((base + "/out" + std::to_string(w)).c_str(), "wb");
      uint64_t n = o.evals;
      fwrite(&n, 8, 1, f);
      n = o.hashes.size();
      fwrite(&n, 8, 1, f);
      for (auto h : o.hashes) fwrite(&h, 8, 1, f);
      n = o.labels.size();
      fwrite(&n, 8, 1, f);
      for (auto &l : o.labels) {
        put_str(f, l.first);
        fwrite(&l.second, 8, 1, f);
      }
      n = o.samples.size();
      fwrite(&n, 8, 1, f);
      for (auto &x : o.samples) {
        uint64_t ix = x.idx;
        fwrite(&ix, 8, 1, f);
        put_str(f, x.desc);
      }
      fclose(f);
      rm_rf(g_scratch);
      _exit(0);
    }
    kids.push_back(pid);
  }
  bool bad = false;
  for (pid_t k : kids) {
    int st = 0;
    waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true;
  }
  if (bad) {
    fprintf(stderr, "worker failed\n");
    return 3;
  }
  uint64_t evals = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes;
  std::vector<Sample> samples;
  for (int w = 0; w < W; w++) {
    FILE *f = fopen((base + "/out" + std::to_string(w)).c_str(), "rb");
    if (!f) return 3;
    uint64_t n = 0, h;
    if (fread(&n, 8, 1, f) != 1) return 3;
    evals += n;
    if (fread(&n, 8, 1, f) != 1) return 3;
    while (n-- && fread(&h, 8, 1, f) == 1) hashes.insert(h);
    if (fread(&n, 8, 1, f) != 1) return 3;
    while (n--) {
      std::string k = get_str(f);
      if (fread(&h, 8, 1, f) == 1) labels[k] += h;
    }
    if (fread(&n, 8, 1, f) != 1) return 3;
    while (n--) {
      if (fread(&h, 8, 1, f) != 1) break;
      std::string d = get_str(f);
      samples.push_back({(long)h, d});
    }
    fclose(f);
  }
  std::sort(samples.begin(), samples.end(), [](const Sample &a, const Sample &b) { return a.idx < b.idx; });
  if (samples.size() > 4) samples.resize(4);
  if (!digests.empty()) {
    std::map<uint64_t, uint64_t> d;
    for (int w = 0; w < W; w++) {
      FILE *f = fopen((base + "/dig" + std::to_string(w)).c_str(), "rb");
      uint64_t rec[2];
      while (f && fread(rec, 16, 1, f) == 1) d[rec[0]] = rec[1];
      if (f) fclose(f);
    }
    FILE *f = fopen(digests.c_str(), "w");
    for (auto &x : d) fprintf(f, "%llu %016llx\n", (unsigned long long)x.first, (unsigned long long)x.second);
    fclose(f);
  }
  int rc = 0;
  std::string vmsg, rfile = opt.count("replay") ? opt["replay"] : base + "/replay";
  if (G->minfail != LONG_MAX) {
    long idx = G->minfail;
    Shm *s = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_scratch = base + "/shrink";
    mkdir(g_scratch.c_str(), 0700);
    bool f = run_case(p, s, case_seed(seed, p.id, idx), nullptr, tier.c_str(), true);
    std::string kind = s->kind, msg = s->msg;
    if (f) {
      std::vector<uint64_t> ch(s->choice, s->choice + s->nchoice);
      unsigned budget = kind == "nontermination" ? 12 : 4000;
      std::vector<uint64_t> small = s->nchoice >= MAXCHOICE ? ch : shrink(p, s, ch, kind, tier.c_str(), budget, 120);
      // confirm three times
      int again = 0;
      for (int k = 0; k < 3; k++) again += run_case(p, s, 0, &small, tier.c_str(), true) && kind == s->kind;
      if (again < 3) {
        small = ch;
        again = 0;
        for (int k = 0; k < 3; k++) again += run_case(p, s, 0, &small, tier.c_str(), true);
      }
      if (again == 3) {
        std::string log = base + "/log";
        g_log = log;
        run_case(p, s, 0, &small, tier.c_str(), true);
        FILE *o = fopen(rfile.c_str(), "w");
        if (!o) {
          perror(rfile.c_str());
          return 3;
        }
        fprintf(o, "property=%s\ntier=%s\nseed=%llu case=%ld\nfailure=%s: %s\n", p.id, tier.c_str(), (unsigned long long)seed, idx, s->kind, s->msg);
        write_choices(o, small);
        fprintf(o, "case:\n%s\n", s->desc);
        std::ifstream l(log);
        std::string t;
        int n = 0;
        while (std::getline(l, t) && n++ < 80) fprintf(o, "log: %s\n", t.c_str());
        fclose(o);
        vmsg = std::string(s->kind) + ": " + s->msg;
        rc = 1;
      } else {
        fprintf(stderr, "case %ld failed (%s: %s) but did not reproduce three times\n", idx, kind.c_str(), msg.c_str());
        skip.insert(idx);
      }
    } else {
      fprintf(stderr, "case %ld failed once and did not reproduce\n", idx);
      skip.insert(idx);
    }
    if (!rc && skip.size() <= 5) goto again_from_start;
  }
  if (!skip.empty()) labels["unreproduced"] = skip.size();
  double wall = now() - t0;
  if (opt.count("evidence")) {
    FILE *f = fopen(opt["evidence"].c_str(), "w");
    if (!f) {
      perror(opt["evidence"].c_str());
      return 3;
    }
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", p.id, tier.c_str(), (unsigned long long)seed);
    fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": \"%s\",\n  \"classes\": {", (unsigned long long)evals, hashes.size(), jesc(p.rule).c_str());
    bool first = true;
    for (auto &l : labels) {
      fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(l.first).c_str(), (unsigned long long)l.second);
      first = false;
    }
    fprintf(f, "},\n  \"samples\": [");
    first = true;
    for (auto &x : samples) {
      fprintf(f, "%s\n   \"case %ld: %s\"", first ? "" : ",", x.idx, jesc(x.desc).c_str());
      first = false;
    }
    fprintf(f, "]\n },\n \"assumptions\": [");
    first = true;
    for (auto &a : p.assumptions) {
      fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(a).c_str());
      first = false;
    }
    fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, rc);
    fclose(f);
  }
  if (rc) {
    fprintf(stderr, "%s\n", vmsg.c_str());
    printf("VIOLATION property=%s replay=%s\n", p.id, rfile.c_str());
  } else {
    printf("held: property=%s cases=%llu nontrivial=%zu wall=%.1fs\n", p.id, (unsigned long long)evals, hashes.size(), wall);
    if (opt.count("verbose"))
      for (auto &l : labels) printf("  %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
  }
  return rc;
}
}  // namespace eng

#ifndef VERIF_NO_MAIN
int main(int argc, char **argv) { return eng::main_(argc, argv); }
#endif
