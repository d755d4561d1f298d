// Common driver loop: reads scripts from stdin, runs each in a forked child, prints observations.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <sys/resource.h>
#include "GyotoError.h"
namespace drv {
inline FILE *out = stdout;
inline void obs(std::string const &s) { fprintf(out, "> %s\n", s.c_str()); fflush(out); }
inline std::vector<std::string> split(std::string const &l) {
  std::vector<std::string> r; std::istringstream is(l); std::string w;
  while (is >> w) r.push_back(w);
  return r;
}
inline std::string clean(std::string s) {
  for (auto &c : s) if (c == '\n' || c == '\r') c = ' ';
  return s;
}
// each script: begin() once in the child, then step(line) per line
inline int loop(std::function<void(std::vector<std::string> const &)> script, int limit_s = 60) {
  std::string line; std::vector<std::string> cur; std::string id; bool in = false;
  if (getenv("DRV_LIMIT")) limit_s = atoi(getenv("DRV_LIMIT"));
  // keep a private copy of stdout: library chatter goes to /dev/null
  int fd = dup(1); out = fdopen(fd, "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  if (!getenv("DRV_STDERR")) { if (!freopen("/dev/null", "w", stderr)) return 3; }
  while (std::getline(std::cin, line)) {
    if (line.compare(0, 2, "T ") == 0) { id = line.substr(2); cur.clear(); in = true; continue; }
    if (line == "." && in) {
      in = false;
      fprintf(out, "T %s\n", id.c_str()); fflush(out);
      pid_t p = fork();
      if (p == 0) {
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        alarm(limit_s);
        try { script(cur); }
        catch (Gyoto::Error &e) { std::ostringstream o; o << (std::string)e; obs("uncaught " + clean(o.str())); fflush(out); _exit(41); }
        catch (std::exception &e) { obs(std::string("uncaught-std ") + clean(e.what())); fflush(out); _exit(42); }
        fflush(out);
        _exit(0);
      }
      int st = 0; waitpid(p, &st, 0);
      if (WIFSIGNALED(st)) fprintf(out, "E sig%d\n", WTERMSIG(st));
      else if (WEXITSTATUS(st)) fprintf(out, "E exit%d\n", WEXITSTATUS(st));
      else fprintf(out, "E ok\n");
      fflush(out);
      continue;
    }
    if (in) cur.push_back(line);
  }
  return 0;
}
}
