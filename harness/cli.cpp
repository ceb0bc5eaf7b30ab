#include "cli.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

const std::vector<CliOption> kCliOptions = {
    {"align-threshold", 'x'}, {"background-color", 'c'}, {"centerline", 'f'}, {"charcode", 'u'}, {"color-count", 'u'},
    {"corner-always-threshold", 'r'}, {"corner-surround", 'u'}, {"corner-threshold", 'r'}, {"debug-arch", 'i'}, {"debug-bitmap", 'f'},
    {"despeckle-level", 'u'}, {"despeckle-tightness", 'r'}, {"dpi", 'u'}, {"error-threshold", 'r'}, {"filter-iterations", 'u'},
    {"help", 'i'}, {"input-format", 's'}, {"line-reversion-threshold", 'r'}, {"line-threshold", 'r'}, {"list-input-formats", 'i'},
    {"list-output-formats", 'i'}, {"log", 'f'}, {"noise-removal", 'r'}, {"output-file", 's'}, {"output-format", 's'},
    {"preserve-width", 'f'}, {"range", 'x'}, {"remove-adjacent-corners", 'f'}, {"remove-knees", 'f'}, {"report-progress", 'f'},
    {"tangent-surround", 'u'}, {"version", 'i'}, {"width-weight-factor", 'r'}};

bool cli_unique(const std::string &p) {
  int n = 0;
  for (auto &o : kCliOptions) {
    if (p == o.name) return true;
    if (std::string(o.name).compare(0, p.size(), p) == 0) n++;
  }
  return n == 1;
}

static std::string exe_dir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n <= 0) return ".";
  b[n] = 0;
  std::string s = b;
  return s.substr(0, s.rfind('/'));
}
std::string locale_dir() { return exe_dir() + "/../locale"; }

std::string file_text(const std::string &path) {
  Bytes b = read_file(path);
  return std::string(b.begin(), b.end());
}
void put_file(const std::string &path, const std::string &t) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size() || fclose(f)) {
    fprintf(stderr, "cannot write %s\n", path.c_str());
    _exit(77);
  }
}

std::string cli_line(const CliOpts &o) {
  std::string s;
  for (auto &e : o.env) s += e + " ";
  s += "autotrace";
  for (auto &a : o.args) {
    s += ' ';
    bool plain = !a.empty();
    for (char ch : a) plain = plain && (isalnum((unsigned char)ch) || strchr("-_./=,+:%", ch));
    s += plain ? a : "'" + a + "'";
  }
  if (!o.stdout_to.empty()) s += " >" + o.stdout_to;
  return s;
}

CliRun run_cli(Ctx &, const CliOpts &o) {
  static const std::string exe = exe_dir() + "/repo/autotrace";
  int po[2], pe[2];
  if (pipe(po) || pipe(pe)) _exit(77);
  std::vector<std::string> env = {"PATH=/usr/bin:/bin", "AT_DATE_ZERO=yes", "ASAN_OPTIONS=exitcode=99:detect_leaks=0:abort_on_error=0:malloc_fill_byte=190:max_malloc_fill_size=268435456:allocator_may_return_null=1"};
  env.insert(env.end(), o.env.begin(), o.env.end());
  std::vector<char *> av, ev;
  av.push_back((char *)"autotrace");
  for (auto &a : o.args) av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  for (auto &e : env) ev.push_back((char *)e.c_str());
  ev.push_back(nullptr);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) _exit(77);
  if (!pid) {
    setpgid(0, 0);
    int nul = open("/dev/null", O_RDONLY);
    dup2(nul, 0);
    int out = po[1];
    if (!o.stdout_to.empty()) out = open(o.stdout_to.c_str(), O_WRONLY);
    if (out < 0 || chdir(o.cwd.c_str())) _exit(77);
    dup2(out, 1);
    dup2(pe[1], 2);
    for (int fd = 3; fd < 64; fd++) close(fd);
    rlimit cpu{20, 21}, core{0, 0};
    setrlimit(RLIMIT_CPU, &cpu);
    setrlimit(RLIMIT_CORE, &core);
    for (int s : {SIGXCPU, SIGPIPE, SIGTERM, SIGINT}) signal(s, SIG_DFL);
    execve(exe.c_str(), av.data(), ev.data());
    _exit(77);
  }
  close(po[1]), close(pe[1]);
  CliRun r;
  pollfd p[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
  int open_ = 2;
  char buf[65536];
  while (open_) {
    if (poll(p, 2, 60000) <= 0) {
      kill(pid, SIGKILL);
      r.timeout = true;
      break;
    }
    for (int k = 0; k < 2; k++) {
      if (p[k].fd < 0 || !p[k].revents) continue;
      ssize_t n = read(p[k].fd, buf, sizeof buf);
      if (n > 0) {
        (k ? r.err : r.out).append(buf, n);
      } else {
        close(p[k].fd);
        p[k].fd = -1;
        open_--;
      }
    }
  }
  for (auto &q : p)
    if (q.fd >= 0) close(q.fd);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) r.status = WEXITSTATUS(st);
  else r.status = -WTERMSIG(st);
  if (r.status == -SIGXCPU || (r.status == -SIGKILL && !r.timeout)) r.timeout = true;
  if (r.status == 77) {
    fprintf(stderr, "the tool cannot be started\n");
    _exit(77);
  }
  return r;
}
