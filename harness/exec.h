// Runs the command-line tools built beside the harness.
#ifndef VERIF_EXEC_H_
#define VERIF_EXEC_H_
#include "isolate.h"
#include <limits.h>
#include <string>
#include <vector>
struct Ran {
  int code = 0;          // exit status
  std::string how, out;  // how: empty if it exited; out: what it printed
  bool ok() const { return how.empty() && code == 0; }
  // A refusal is an exit status or a fatal error message, not a crash.
  bool refused() const { return how.empty() ? code != 0 : how == "abort"; }
  std::string Show() const { return (how.empty() ? "exit " + std::to_string(code) : how); }
};
inline Ran RunTool(const std::string& tool, const std::vector<std::string>& args, const std::string& cwd, int seconds = 60) {
  static std::string bin;
  if (bin.empty()) {
    char b[PATH_MAX];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    bin = std::string(b, n);
    bin = bin.substr(0, bin.rfind('/') + 1);
  }
  std::string path = bin + tool;
  std::vector<char*> argv = {const_cast<char*>(path.c_str())};
  for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
  argv.push_back(nullptr);
  Ran r;
  int p[2];
  if (pipe(p)) abort();
  pid_t pid = fork();
  if (pid < 0) abort();
  if (pid == 0) {
    int null = open("/dev/null", O_RDWR);
    dup2(null, 0);
    dup2(p[1], 1);
    dup2(null, 2);
    close(p[0]);
    close(p[1]);
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPIPE}) signal(s, SIG_DFL);
    if (chdir(cwd.c_str())) _exit(126);
    alarm(seconds);
    execv(path.c_str(), argv.data());
    _exit(127);
  }
  close(p[1]);
  char buf[65536];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) r.out.append(buf, n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) r.code = WEXITSTATUS(st);
  else r.how = WTERMSIG(st) == SIGABRT ? "abort" : WTERMSIG(st) == SIGALRM ? "hang" : "signal " + std::to_string(WTERMSIG(st));
  if (r.how.empty() && (r.code == 126 || r.code == 127)) {
    fprintf(stderr, "cannot run %s\n", path.c_str());
    abort();
  }
  return r;
}
#endif
