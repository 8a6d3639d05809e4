// random patterns for the matching procedures, and helpers around them
#pragma once
#include "monaa.hh"
#include "ta.hh"
#include <sys/resource.h>
#include <sys/wait.h>

// pattern ending with $: a chain or graph over states 0..n-1, accepting state n
static ta::A pattern(bool dollar) {
  ta::A a;
  int n = nv::rnd(1, nv::coin(3) ? 5 : 4);
  a.k = nv::rnd(1, 2);
  a.n = n + 1;
  a.init.assign(a.n, false);
  a.match.assign(a.n, false);
  a.init[0] = true;
  if (n > 1 && nv::coin(6))
    a.init[1] = true;
  a.match[n] = true;
  const char *abc = nv::coin(3) ? "abc" : "ab";
  int L = strlen(abc);
  const int mc = nv::rnd(1, 6);
  if (nv::coin(3)) { // patterns where the gaps matter for skipping: one clock, reset often, mostly one letter
    a.k = 1;
    a.n = n + 1;
    auto letter = [&] { return nv::coin(4) ? 'b' : 'a'; };
    for (int i = 0; i + 1 < n; i++)
      for (int r = nv::coin(3) ? 2 : 1; r > 0; r--)
        a.e.push_back({i, i + 1, letter(), ta::randGuard(1, nv::coin(6) ? 20 : mc, 2), nv::coin(3) ? std::vector<int>{} : std::vector<int>{0}});
    a.e.push_back({n - 1, n, dollar ? '$' : letter(), ta::randGuard(1, mc, 1), {}});
    return a;
  }
  for (int i = 0; i + 1 < n; i++) // a spine
    a.e.push_back({i, i + 1, abc[nv::rnd(0, L - 1)], ta::randGuard(a.k, mc, 2), ta::randReset(a.k)});
  for (int i = nv::rnd(0, 3); i > 0; i--) // extra edges
    a.e.push_back({nv::rnd(0, n - 1), nv::rnd(0, n - 1), abc[nv::rnd(0, L - 1)], ta::randGuard(a.k, mc, 2), ta::randReset(a.k)});
  for (int i = nv::coin(4) ? 2 : 1; i > 0; i--)
    a.e.push_back({i == 1 ? n - 1 : nv::rnd(0, n - 1), n, dollar ? '$' : abc[nv::rnd(0, L - 1)], ta::randGuard(a.k, mc, 2), {}});
  return a;
}
// letters along a path: feasibility of difference constraints. Bounded search for an accepting run with >= 1 letters before the end
struct Feas {
  const ta::A &a;
  bool dollar;
  int best = 99;
  std::vector<std::vector<long>> base;
  Feas(const ta::A &aa, bool d) : a(aa), dollar(d) {}
  // times e_0=0 <= e_1 <= ... encode as DBM over event indices, bounds 2c+1 / 2c
  bool feasible(const std::vector<int> &path) {
    int n = path.size() + 1;
    std::vector<std::vector<long>> d(n, std::vector<long>(n, 1 << 20));
    for (int i = 0; i < n; i++)
      d[i][i] = 1;
    for (int i = 0; i + 1 < n; i++)
      d[i][i + 1] = 0; // e_i < e_{i+1}
    std::vector<int> last(a.k, 0);
    for (int i = 0; i < int(path.size()); i++) {
      auto &e = a.e[path[i]];
      for (auto &g : e.g) {
        int p = i + 1, q = last[g.x];
        long c = 2L * g.c;
        if (g.o == 0) d[p][q] = std::min(d[p][q], c);
        if (g.o == 1) d[p][q] = std::min(d[p][q], c + 1);
        if (g.o == 2) d[q][p] = std::min(d[q][p], -c + 1);
        if (g.o == 3) d[q][p] = std::min(d[q][p], -c);
      }
      for (int x : e.r)
        last[x] = i + 1;
    }
    for (int k = 0; k < n; k++)
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
          long s = ((d[i][k] >> 1) + (d[k][j] >> 1)) * 2 + (d[i][k] & d[k][j] & 1);
          d[i][j] = std::min(d[i][j], s);
        }
    for (int i = 0; i < n; i++)
      if (d[i][i] < 1)
        return false;
    return true;
  }
  void go(int s, std::vector<int> &path, int depth) {
    for (size_t k = 0; k < a.e.size(); k++) {
      auto &e = a.e[k];
      if (e.s != s)
        continue;
      path.push_back(k);
      if (feasible(path)) {
        int letters = int(path.size()) - (e.c == '$' ? 1 : 0);
        if (a.match[e.t]) {
          if (letters >= 1)
            best = std::min(best, letters);
        } else if (depth > 0 && int(path.size()) < best + 1)
          go(e.t, path, depth - 1);
      }
      path.pop_back();
    }
  }
  int shortest() {
    std::vector<int> p;
    for (int i = 0; i < a.n; i++)
      if (a.init[i])
        go(i, p, 5);
    return best;
  }
};

// 0: monaaDollar, 1: monaa, 2: monaaNotNecessaryDollar
template <class W> static void match(int mode, W &w, const TimedAutomaton &t, AnsVec<Zone> &ans) {
  if (mode == 0)
    monaaDollar(w, t, ans);
  else if (mode == 1)
    monaa(w, t, ans);
  else
    monaaNotNecessaryDollar(w, t, ans);
}
//! the skip tables of some patterns take minutes to build: try in a child process first
static bool quick(const TimedAutomaton &t, int mode, int limitMs) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    struct itimerval tv = {{0, 0}, {limitMs / 1000, (limitMs % 1000) * 1000}};
    signal(SIGVTALRM, SIG_DFL);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE})
      signal(s, SIG_DFL);
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    FILE *f = tmpfile();
    WordVector<std::pair<Alphabet, double>> c(f, false);
    AnsVec<Zone> ans;
    nv::finished = true;
    match(mode, c, t, ans);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return !(WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM);
}

