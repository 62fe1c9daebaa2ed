// Helpers shared by the replay drivers: reading case files, reporting, death probes.
#pragma once
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vf {
struct Line {
  std::string kind;
  std::vector<long long> v;
};

// Lines of the form  KIND int int ...
inline void for_each_line(const char* path, const std::function<void(const Line&)>& f) {
  std::ifstream in(path);
  if (!in) {
    std::fprintf(stderr, "cannot open %s\n", path);
    std::exit(3);
  }
  std::string s;
  Line l;
  while (std::getline(in, s)) {
    if (s.empty())
      continue;
    const char* p = s.c_str();
    while (*p == ' ')
      ++p;
    const char* q = p;
    while (*q && *q != ' ')
      ++q;
    l.kind.assign(p, q);
    l.v.clear();
    char* end = nullptr;
    while (*q) {
      while (*q == ' ')
        ++q;
      if (!*q)
        break;
      long long x = std::strtoll(q, &end, 10);
      if (end == q) {
        std::fprintf(stderr, "bad token in: %s\n", s.c_str());
        std::exit(3);
      }
      l.v.push_back(x);
      q = end;
    }
    f(l);
  }
}

struct Report {
  long cases = 0, comparisons = 0, mismatches = 0;
  std::map<std::string, long> extra;
  template <class A, class B>
  bool eq(const A& got, const B& want, const std::string& what) {
    ++comparisons;
    if (got == want)
      return true;
    if (++mismatches <= 40) {
      std::ostringstream os;
      os << "MISMATCH " << what << " got=" << got << " spec=" << want << "\n";
      std::fputs(os.str().c_str(), stdout);
      std::fflush(stdout);
    }
    return false;
  }
  bool ok(bool cond, const std::string& what) {
    ++comparisons;
    if (cond)
      return true;
    if (++mismatches <= 40) {
      std::printf("MISMATCH %s\n", what.c_str());
      std::fflush(stdout);
    }
    return false;
  }
  int done() {
    std::printf("DONE cases=%ld comparisons=%ld mismatches=%ld", cases, comparisons, mismatches);
    for (auto& kv : extra)
      std::printf(" %s=%ld", kv.first.c_str(), kv.second);
    std::printf("\n");
    std::fflush(stdout);
    return mismatches ? 1 : 0;
  }
};

// Run f in a child process. 0: returned normally, 1: it died (abort/terminate/signal/nonzero exit).
inline int dies(const std::function<void()>& f) {
  std::fflush(stdout);
  std::fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    std::freopen("/dev/null", "w", stderr);
    std::freopen("/dev/null", "w", stdout);
    signal(SIGABRT, SIG_DFL);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? 0 : 1;
}
template <class... A>
std::string cat(const A&... a) {
  std::ostringstream os;
  ((os << a << ' '), ...);
  return os.str();
}
}  // namespace vf
