// shared scaffolding of the native harnesses: deterministic cases on the real code, crash and hang capture
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace nv {
inline uint64_t seed = 1, state = 1;
inline bool thorough = false;
inline double budget = 60; // CPU seconds
inline long cases = 0, nontrivial = 0;
inline std::unordered_set<uint64_t> seen;
inline std::map<std::string, long> fails;
inline std::vector<std::string> samples;
inline char cur[8192];
inline std::string group;

inline uint64_t rnd() {
  uint64_t z = (state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline int rnd(int lo, int hi) { return lo + int(rnd() % uint64_t(hi - lo + 1)); }
inline bool coin(int n = 2) { return rnd() % n == 0; }
template <class T> const T &pick(const std::vector<T> &v) { return v[rnd() % v.size()]; }

inline double cpu() {
  return double(clock()) / CLOCKS_PER_SEC;
}
inline bool timeUp() { return cpu() > budget; }

inline void oneline(std::string &s) {
  for (auto &ch : s)
    if (ch == '\n' || ch == '\r')
      ch = ' ';
}
//! start a case: describe it (used if the code under test crashes or hangs)
inline void begin(std::string text, bool interesting = true) {
  oneline(text);
  std::snprintf(cur, sizeof cur, "%s", text.c_str());
  cases++;
  if (interesting && seen.insert(std::hash<std::string>{}(group + text)).second) {
    nontrivial++;
    if (samples.size() < 4 && (nontrivial & (nontrivial - 1)) == 0)
      samples.push_back(group + ": " + text);
  }
  struct itimerval tv = {{0, 0}, {20, 0}};
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}
inline void fail(const std::string &key, std::string text) {
  oneline(text);
  if (fails[key]++ < 3) {
    std::printf("FAIL %s | %s: %s\n", key.c_str(), group.c_str(), text.c_str());
    std::fflush(stdout);
  }
}
inline void check(bool ok, const std::string &key, const std::string &why) {
  if (!ok)
    fail(key, std::string(cur) + " -- " + why);
}
inline void summary() {
  std::printf("CASES %ld %ld\n", cases, nontrivial);
  for (auto &s : samples)
    std::printf("SAMPLE %s\n", s.c_str());
  for (auto &f : fails)
    std::printf("COUNT %s %ld\n", f.first.c_str(), f.second);
  std::fflush(stdout);
}
inline void onsig(int s) {
  const char *what = s == SIGVTALRM ? "hang" : "crash";
  std::printf("FAIL %s | %s: %s -- %s (signal %d)\n", what, group.c_str(), cur, s == SIGVTALRM ? "no answer after 20 s of CPU time" : "the code under test crashed", s);
  summary();
  std::printf("END\n");
  std::fflush(stdout);
  _exit(0);
}
inline bool finished = false;
inline void onexit() {
  if (finished)
    return;
  std::printf("FAIL exit | %s: %s -- the code under test ended the process\n", group.c_str(), cur);
  summary();
  std::printf("END\n");
  std::fflush(stdout);
  _exit(0);
}
inline void init(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--seed")
      seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--thorough")
      thorough = true;
    else if (a == "--budget")
      budget = atof(argv[++i]);
  }
  state = seed * 1000003;
  atexit(onexit);
  static char stk[1 << 16];
  stack_t ss = {};
  ss.ss_sp = stk;
  ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGVTALRM}) {
    struct sigaction sa = {};
    sa.sa_handler = onsig;
    sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
    sigaction(s, &sa, nullptr);
  }
  std::freopen("/dev/null", "w", stderr);
}
//! continue in W processes with different random streams; the parent adds up what they report and ends
inline void parallel(int W) {
  std::vector<FILE *> out;
  for (int k = 0; k < W; k++) {
    std::fflush(stdout);
    FILE *f = tmpfile();
    if (fork() == 0) {
      state = seed * 1000003 + 7919 * k;
      dup2(fileno(f), 1);
      return;
    }
    out.push_back(f);
  }
  while (wait(nullptr) > 0)
    ;
  finished = true;
  long c = 0, n = 0, ends = 0;
  std::map<std::string, long> count;
  int printed = 0, shown = 0;
  for (FILE *f : out) {
    rewind(f);
    static char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
      std::string l = line;
      if (l.compare(0, 5, "FAIL ") == 0) {
        if (printed++ < 6)
          std::printf("%s", line);
        else {
          // one line per further kind
          std::string k = l.substr(5, l.find(" | ") - 5);
          if (count.insert({k, 0}).second)
            std::printf("%s", line);
        }
      } else if (l.compare(0, 6, "CASES ") == 0) {
        long a, b;
        sscanf(line, "CASES %ld %ld", &a, &b);
        c += a, n += b;
      } else if (l.compare(0, 7, "SAMPLE ") == 0) {
        if (shown++ < 5)
          std::printf("%s", line);
      } else if (l.compare(0, 6, "COUNT ") == 0) {
        size_t p = l.rfind(' ');
        count[l.substr(6, p - 6)] += atol(l.c_str() + p);
      } else if (l == "END\n")
        ends++;
      else
        std::printf("%s", line);
    }
    fclose(f);
  }
  std::printf("CASES %ld %ld\n", c, n);
  for (auto &k : count)
    std::printf("COUNT %s %ld\n", k.first.c_str(), k.second);
  if (ends == W)
    std::printf("END\n");
  std::fflush(stdout);
  _exit(0);
}
inline int done() {
  finished = true;
  summary();
  std::printf("END\n");
  return 0;
}
inline std::string num(double d) {
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", d);
  return b;
}
} // namespace nv
