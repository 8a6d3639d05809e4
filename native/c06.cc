// bounded check of the skip tables: whenever a partial run and a later match fit on one common timed word, the tables must not
// skip that match; the same words are then given to the matcher, which must report the match
#include "common.hh"
#include "pat.hh"

struct Dbm {
  int n;
  std::vector<std::vector<long>> d; // 2c+1: <= c, 2c: < c
  explicit Dbm(int n) : n(n), d(n, std::vector<long>(n, 1L << 40)) {
    for (int i = 0; i < n; i++)
      d[i][i] = 1;
  }
  void le(int x, int y, long c) { d[y][x] = std::min(d[y][x], 2 * c + 1); } // x - y <= c
  void lt(int x, int y, long c) { d[y][x] = std::min(d[y][x], 2 * c); }
  bool solve() {
    for (int k = 0; k < n; k++)
      for (int i = 0; i < n; i++)
        if (d[i][k] < (1L << 39))
          for (int j = 0; j < n; j++)
            if (d[k][j] < (1L << 39)) {
              long s = ((d[i][k] >> 1) + (d[k][j] >> 1)) * 2 + (d[i][k] & d[k][j] & 1);
              d[i][j] = std::min(d[i][j], s);
            }
    for (int i = 0; i < n; i++)
      if (d[i][i] < 1)
        return false;
    return true;
  }
  //! a solution with variable 0 at value 0 (closed form)
  std::vector<double> value() {
    std::vector<double> v(n, 0);
    for (int i = 1; i < n; i++) {
      double lo = -1e9, hi = 1e9;
      bool los = false, his = false;
      for (int j = 0; j < i; j++) {
        if (d[j][i] < (1L << 39)) {
          double u = v[j] + double(d[j][i] >> 1);
          bool st = !(d[j][i] & 1);
          if (u < hi || (u == hi && st))
            hi = u, his = st;
        }
        if (d[i][j] < (1L << 39)) {
          double u = v[j] - double(d[i][j] >> 1);
          bool st = !(d[i][j] & 1);
          if (u > lo || (u == lo && st))
            lo = u, los = st;
        }
      }
      if (hi > 1e8)
        hi = lo + 4, his = false;
      v[i] = !los && nv::coin() ? lo : !his && nv::coin() ? hi : lo == hi ? lo : lo + (hi - lo) * (nv::coin() ? 0.5 : 0.25);
    }
    return v;
  }
};
using Path = std::vector<int>; // edge indices
static void paths(const ta::A &a, int s, int depth, Path &p, std::vector<Path> &all) {
  if (all.size() > 60)
    return;
  for (size_t k = 0; k < a.e.size(); k++)
    if (a.e[k].s == s) {
      p.push_back(k);
      all.push_back(p);
      if (depth > 1 && !a.match[a.e[k].t])
        paths(a, a.e[k].t, depth - 1, p, all);
      p.pop_back();
    }
}
static void guard(Dbm &d, const ta::A &a, const ta::E &e, const std::vector<int> &last, int at) {
  for (auto &g : e.g) {
    if (g.o == 0) d.lt(at, last[g.x], g.c);
    if (g.o == 1) d.le(at, last[g.x], g.c);
    if (g.o == 2) d.le(last[g.x], at, -g.c);
    if (g.o == 3) d.lt(last[g.x], at, -g.c);
  }
}
// variables: 0 = zero, 1 = t0, 2 = t1, 3 = t', 4.. = events
static Dbm joint(const ta::A &a, bool dollar, const Path *pi, const Path &rho, int n) {
  int q = rho.size() - (dollar ? 1 : 0);
  int K = std::max(pi ? int(pi->size()) : 0, n + q);
  Dbm d(4 + K);
  for (int i = 0; i < K; i++)
    d.lt(i ? 4 + i - 1 : 0, 4 + i, 0);
  d.le(0, 1, 0);
  if (K)
    d.lt(1, 4, 0);
  d.le(n ? 4 + n - 1 : 0, 2, 0);
  if (n < K)
    d.lt(2, 4 + n, 0);
  if (pi) {
    std::vector<int> last(a.k, 1);
    for (size_t i = 0; i < pi->size(); i++) {
      auto &e = a.e[(*pi)[i]];
      guard(d, a, e, last, 4 + i);
      for (int x : e.r)
        last[x] = 4 + i;
    }
  }
  std::vector<int> last(a.k, 2);
  for (size_t i = 0; i < rho.size(); i++) {
    auto &e = a.e[rho[i]];
    bool end = i + 1 == rho.size();
    int at = end ? 3 : 4 + n + i;
    guard(d, a, e, last, at);
    for (int x : e.r)
      last[x] = at;
    if (end) {
      d.lt(i ? 4 + n + int(i) - 1 : 2, 3, 0); // after the previous event
      if (n + int(i) < K)
        d.le(3, 4 + n + i, 0); // not after the next one
    }
  }
  return d;
}

int main(int argc, char **argv) {
  nv::init(argc, argv);
  nv::parallel(7);
  const int N = nv::thorough ? 20000 : 1000;
  long pairs = 0, skips = 0, found = 0;
  for (int it = 0; it < N && !nv::timeUp(); it++) {
    const bool dollar = nv::coin();
    ta::A a = pattern(dollar);
    if (Feas(a, dollar).shortest() > 5)
      continue;
    TimedAutomaton TA = ta::build(a);
    if (!quick(TA, dollar ? 0 : 1, nv::coin(4) ? 300 : 60))
      continue;
    // the automaton whose tables the matcher uses: with $, states with a $ edge accept (as in monaaDollar)
    ta::A b = a;
    if (dollar) {
      b.e.clear();
      for (auto &e : a.e)
        if (e.c == '$')
          b.match[e.s] = true;
        else
          b.e.push_back(e);
    }
    TimedAutomaton TB = ta::build(b);
    nv::group = dollar ? "skip tables, $" : "skip tables";
    nv::begin(ta::show(a));
    SundaySkipValue sunday(TB);
    const int m = sunday.getM();
    std::unordered_set<char> endChars;
    sunday.getEndChars(endChars);
    KMPSkipValue kmp(TB, m);
    std::vector<Path> all;
    Path tmp;
    for (int i = 0; i < a.n; i++)
      if (a.init[i])
        paths(a, i, m + 2, tmp, all);
    std::vector<Path> rhos;
    nv::check(m >= 1, "sunday", "the shortest length is not positive");
    for (auto &p : all) {
      int q = int(p.size()) - (dollar ? 1 : 0);
      if (!a.match[a.e[p.back()].t] || (dollar ? a.e[p.back()].c != '$' : a.e[p.back()].c == '$') || q < 1)
        continue;
      bool inner = false; // $ only at the end
      for (size_t i = 0; i + 1 < p.size(); i++)
        inner = inner || a.e[p[i]].c == '$';
      if (inner || !joint(a, dollar, nullptr, p, 0).solve())
        continue;
      rhos.push_back(p);
      std::string w;
      for (int i = 0; i < q; i++)
        w += a.e[p[i]].c;
      nv::check(m <= q, "sunday", "shortest length " + std::to_string(m) + " but " + w + " is accepted");
      if (m > q)
        continue;
      nv::check(endChars.count(w[m - 1]), "sunday", std::string("end characters miss ") + w[m - 1]);
      for (int i = 0; i < m; i++)
        nv::check(sunday.at(w[i]) >= 1 && int(sunday.at(w[i])) <= m - i, "sunday", "shift " + std::to_string(sunday.at(w[i])) + " for letter " + w[i] + " at position " + std::to_string(i + 1) + " of " + w + ", length " + std::to_string(m));
    }
    for (int c = 1; c < CHAR_MAX; c++)
      nv::check(sunday.at(c) >= 1 && int(sunday.at(c)) <= m + 1, "sunday", "shift out of range");
    std::vector<std::pair<std::vector<std::pair<char, double>>, std::pair<double, double>>> words;
    bool stop = false;
    for (auto &pi : all) {
      if (stop)
        break;
      auto &le = a.e[pi.back()];
      if (le.c == '$')
        continue;
      int beta = kmp.at(TB.states[le.t]);
      nv::check(beta >= 1 && beta <= m, "kmp", "shift " + std::to_string(beta) + " outside 1.." + std::to_string(m));
      for (auto &rho : rhos) {
        int q = int(rho.size()) - (dollar ? 1 : 0);
        for (int n = 1; n <= m + 1 && !stop; n++) {
          bool same = true;
          for (int k = n; k < int(pi.size()) && k - n < q && same; k++)
            same = a.e[pi[k]].c == a.e[rho[k - n]].c;
          if (!same)
            continue;
          Dbm d = joint(a, dollar, &pi, rho, n);
          if (!d.solve())
            continue;
          pairs++;
          if (beta > n) {
            auto v = d.value();
            std::string s;
            for (size_t i = 0; i < pi.size() || int(i) < n + q; i++)
              s += std::string(" ") + (int(i) < int(pi.size()) ? a.e[pi[i]].c : int(i) >= n ? a.e[rho[i - n]].c : '?') + nv::num(v[4 + i]);
            nv::check(false, "kmp", "state " + std::to_string(le.t) + " skips " + std::to_string(beta) + " but after" + s + " a match begins " + std::to_string(n) + " events later at " + nv::num(v[2]) + " and ends at " + nv::num(v[3]));
            stop = true;
          }
          if (words.size() < 4 || nv::coin(5)) {
            auto v = d.value();
            std::vector<std::pair<char, double>> w;
            for (int i = 0; i < int(v.size()) - 4; i++)
              w.push_back({i < int(pi.size()) ? a.e[pi[i]].c : i >= n ? a.e[rho[i - n]].c : 'a', v[4 + i]});
            words.push_back({w, {v[2], v[3]}});
          }
        }
      }
      skips += beta > 1;
    }
    std::string base = ta::show(a);
    for (int k = 0; k < 8 && !words.empty(); k++) {
      auto &w = words[nv::rnd(0, words.size() - 1)];
      std::string s;
      nv::group = "match after a partial run";
      
      FILE *f = tmpfile();
      for (auto &e : w.first) {
        fwrite(&e.first, 1, 1, f);
        fwrite(&e.second, sizeof(double), 1, f);
        s += std::string(" ") + e.first + nv::num(e.second);
      }
      rewind(f);
      nv::begin(base + " word" + s);
      AnsVec<Zone> ans;
      if (nv::coin()) {
        WordVector<std::pair<Alphabet, double>> c(f, true);
        match(dollar ? 0 : 1, c, TA, ans);
      } else {
        WordLazyDeque c(f, true);
        match(dollar ? 0 : 1, c, TA, ans);
      }
      fclose(f);
      double t = w.second.first, u = w.second.second;
      bool in = false;
      for (auto &z : ans) {
        auto le = [](double x, const Bounds &b) { return b.second ? x <= b.first : x < b.first; };
        in = in || (le(-t, z.value(0, 1)) && le(t, z.value(1, 0)) && le(-u, z.value(0, 2)) && le(u, z.value(2, 0)) && le(t - u, z.value(1, 2)) && le(u - t, z.value(2, 1)));
      }
      found += in;
      nv::check(in, "missed match", "the match from " + nv::num(t) + " to " + nv::num(u) + " is not reported");
    }
  }
  printf("pairs %ld skips %ld found %ld\n", pairs, skips, found);
  if (nv::fails.empty() && nv::cases > 1000 && (pairs < 500 || skips < 50))
    nv::fail("oracle", "hardly any overlapping pair was found");
  return nv::done();
}
