#ifndef VERIF_CLI_H
#define VERIF_CLI_H
#include "common.h"
// Runs the command line tool of the tree under test.
struct CliRun {
  int status = -1;  // exit status, or -signal
  std::string out, err;
  bool timeout = false;
};
struct CliOpts {
  std::vector<std::string> args;
  std::vector<std::string> env;  // NAME=value, added to a small fixed environment
  std::string cwd;
  std::string stdout_to;         // file to open for standard output instead of collecting it
};
CliRun run_cli(Ctx &c, const CliOpts &o);
std::string cli_line(const CliOpts &o);
// The options of the tool: name, kind of value ('f' flag, 'u' unsigned, 'r' real, 'c' colour, 's' string)
struct CliOption {
  const char *name;
  char kind;
};
extern const std::vector<CliOption> kCliOptions;
bool cli_unique(const std::string &prefix);  // names exactly one option
std::string file_text(const std::string &path);
void put_file(const std::string &path, const std::string &text);
std::string locale_dir();  // compiled locales of the build
#endif
