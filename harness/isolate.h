// Runs code in a child process, so that aborts, exceptions, resource limits and
// global state of the code under test stay there.
#ifndef VERIF_ISOLATE_H_
#define VERIF_ISOLATE_H_
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
#include <functional>
#include <string>
struct Isolated {
  bool ok = false;      // the function returned
  std::string out;      // what it returned
  std::string how;      // otherwise: how the child ended
};
inline Isolated Isolate(const std::function<std::string()>& fn, int seconds = 30) {
  Isolated r;
  int p[2];
  if (pipe(p)) abort();
  pid_t pid = fork();
  if (pid < 0) abort();
  if (pid == 0) {
    close(p[0]);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL);
    alarm(seconds);
    std::string out;
    try {
      out = "R" + fn();
    } catch (...) {
      _exit(78);
    }
    struct rlimit inf = {RLIM_INFINITY, RLIM_INFINITY};
    setrlimit(RLIMIT_FSIZE, &inf);
    size_t at = 0;
    while (at < out.size()) {
      ssize_t n = write(p[1], out.data() + at, out.size() - at);
      if (n <= 0) _exit(79);
      at += n;
    }
    _exit(0);
  }
  close(p[1]);
  char buf[65536];
  ssize_t n;
  std::string all;
  while ((n = read(p[0], buf, sizeof buf)) > 0) all.append(buf, n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !all.empty() && all[0] == 'R') {
    r.ok = true;
    r.out = all.substr(1);
  } else if (WIFSIGNALED(st)) {
    r.how = WTERMSIG(st) == SIGALRM ? "hang" : WTERMSIG(st) == SIGABRT ? "abort" : "signal " + std::to_string(WTERMSIG(st));
  } else {
    r.how = WEXITSTATUS(st) == 78 ? "exception" : "exit " + std::to_string(WEXITSTATUS(st));
  }
  return r;
}
// Scratch files live below the directory run.py creates for the run and
// removes after it; a process that is killed leaves nothing behind.
inline std::string ScratchBase() {
  const char* s = getenv("VERIF_SCRATCH");
  return std::string(s != nullptr && *s != 0 ? s : "/tmp") + "/verif-mc-";
}
struct TempDir {
  std::string path;
  TempDir() {
    path = ScratchBase() + "XXXXXX";
    if (mkdtemp(path.data()) == nullptr) abort();
  }
  ~TempDir() {
    std::error_code ec;
    if (path.rfind(ScratchBase(), 0) == 0) std::filesystem::remove_all(path, ec);
  }
};
// One scratch file name per process, removed by the caller.
inline std::string ScratchFile(const char* tag) { return ScratchBase() + std::to_string(getpid()) + "-" + tag; }
inline void WriteFile(const std::string& name, const std::string& data) {
  FILE* f = fopen(name.c_str(), "wb");
  if (!f) abort();
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
}
inline std::string ReadFile(const std::string& name) {
  std::string o;
  FILE* f = fopen(name.c_str(), "rb");
  if (!f) return o;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
  fclose(f);
  return o;
}
#endif
