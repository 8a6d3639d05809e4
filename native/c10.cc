// bounded check of the zone graph: ta2za against exact feasibility of the paths of the automaton (difference constraints), and the
// graph operations (removeDeadStates, empty, epsilonClosure, updateInitAccepting) against plain graph search
#include "common.hh"
#include "ta.hh"
#include "ta2za.hh"

using Words = std::map<std::string, int>;
//! difference constraints over event times; strict: every delay is positive
struct Diff {
  std::vector<std::vector<long>> d;
  explicit Diff(int n) : d(n, std::vector<long>(n, 1 << 20)) {
    for (int i = 0; i < n; i++)
      d[i][i] = 1;
  }
  void up(int p, int q, long c) { d[q][p] = std::min(d[q][p], c); } // e_p - e_q below c (coded)
  bool sat() const {
    auto m = d;
    int n = m.size();
    for (int k = 0; k < n; k++)
      for (int i = 0; i < n; i++)
        if (m[i][k] < (1 << 19))
          for (int j = 0; j < n; j++)
            if (m[k][j] < (1 << 19))
              m[i][j] = std::min(m[i][j], ((m[i][k] >> 1) + (m[k][j] >> 1)) * 2 + (m[i][k] & m[k][j] & 1));
    for (int i = 0; i < n; i++)
      if (m[i][i] < 1)
        return false;
    return true;
  }
};
struct Init { int x, y; long c; }; // bound on the value of x minus the value of y at the start (-1 for the constant 0), coded
//! a run of the letters on this path with strictly increasing positive timestamps
static bool feasible(const ta::A &a, const std::vector<int> &path, const std::vector<Init> *init) {
  const int E = path.size() + 1;
  Diff f(E + (init ? a.k : 0));
  std::vector<int> last(a.k, 0);
  if (init) {
    for (int x = 0; x < a.k; x++) {
      last[x] = E + x;
      f.up(E + x, 0, 1);
    }
    auto time = [&](int x) { return x < 0 ? 0 : E + x; }; // the value of x at the start is -time(x)
    for (auto &b : *init)
      f.up(time(b.y), time(b.x), b.c);
  }
  for (size_t i = 0; i < path.size(); i++) {
    auto &e = a.e[path[i]];
    f.up(i, i + 1, 0);
    for (auto &g : e.g) {
      int p = i + 1, q = last[g.x];
      switch (g.o) {
      case 0: f.up(p, q, 2 * g.c); break;
      case 1: f.up(p, q, 2 * g.c + 1); break;
      case 2: f.up(q, p, -2 * g.c + 1); break;
      case 3: f.up(q, p, -2 * g.c); break;
      }
    }
    for (int r : e.r)
      last[r] = i + 1;
  }
  return f.sat();
}
//! letter sequences of accepting runs up to length L
static void runs(const ta::A &a, int s, std::vector<int> &path, std::string &w, size_t L, const std::vector<Init> *init, std::set<std::string> &out, long &work) {
  if (++work > 60000)
    return;
  if (a.match[s])
    out.insert(w);
  if (w.size() == L)
    return;
  for (size_t k = 0; k < a.e.size(); k++)
    if (a.e[k].s == s) {
      path.push_back(k);
      w.push_back(a.e[k].c == 0 ? '.' : a.e[k].c);
      if (feasible(a, path, init))
        runs(a, a.e[k].t, path, w, L, init, out, work);
      w.pop_back();
      path.pop_back();
    }
}
static std::set<std::string> words(const ZoneAutomaton &z, size_t L) {
  std::set<std::string> out;
  std::map<std::string, std::set<ZAState *>> cur, next;
  for (auto &s : z.initialStates)
    cur[""].insert(s.get());
  for (size_t l = 0;; l++) {
    next.clear();
    for (auto &p : cur)
      for (auto *s : p.second) {
        if (s->isMatch)
          out.insert(p.first);
        if (l < L)
          for (int c = 0; c < CHAR_MAX; c++)
            for (auto &t : s->next[c])
              if (auto q = t.lock())
                next[p.first + (c == 0 ? '.' : char(c))].insert(q.get());
      }
    if (l == L)
      return out;
    cur.swap(next);
  }
}
static std::string list(const std::set<std::string> &a, const std::set<std::string> &b) {
  for (auto &x : a)
    if (!b.count(x))
      return "'" + x + "'";
  return "";
}
static ta::A randomTA() {
  ta::A a;
  a.n = nv::rnd(1, 5);
  a.k = nv::rnd(0, nv::coin(4) ? 3 : 2);
  for (int i = 0; i < a.n; i++) {
    a.init.push_back(i == 0 || nv::coin(6));
    a.match.push_back(i == a.n - 1 || nv::coin(5));
  }
  int m = nv::rnd(1, 2 * a.n + 1), mc = nv::rnd(0, 4);
  for (int i = 0; i < m; i++) {
    ta::E e{nv::rnd(0, a.n - 1), nv::rnd(0, a.n - 1), "ab\0"[nv::rnd(0, nv::coin(4) ? 2 : 1)], ta::randGuard(a.k, mc, 3), ta::randReset(a.k)};
    if (i + 1 < a.n && nv::coin())
      e.s = i, e.t = i + 1;
    a.e.push_back(e);
  }
  return a;
}
static bool onlyZero(const ta::A &a) {
  for (auto &e : a.e)
    for (auto &g : e.g)
      if (g.c != 0)
        return false;
  return true;
}
static void zones() {
  nv::group = "ta2za";
  ta::A a = randomTA();
  const size_t L = a.e.size() > 6 ? 4 : 5;
  std::string d = ta::show(a);
  TimedAutomaton t = ta::build(a);
  std::vector<Init> init;
  Zone start;
  const bool from = a.k > 0 && nv::coin(6);
  if (from) { // start from a given zone instead of the all-zero valuation
    start = Zone::zero(a.k + 1);
    const Bounds none(std::numeric_limits<double>::infinity(), false);
    for (int i = 0; i <= a.k; i++)
      for (int j = 0; j <= a.k; j++)
        if (i != j && i > 0)
          start.value(i, j) = none;
    d += " from";
    for (int n = nv::rnd(1, 3); n > 0; n--) {
      int x = nv::rnd(-1, a.k - 1), y = nv::rnd(-1, a.k - 1), c = nv::rnd(-1, 3);
      bool le = nv::coin();
      if (x == y)
        continue;
      start.tighten(x, y, {c, le});
      init.push_back({x, y, 2 * c + le});
      d += " x" + std::to_string(x) + "-x" + std::to_string(y) + (le ? "<=" : "<") + std::to_string(c);
    }
    if (!start.isSatisfiable())
      return;
  }
  nv::begin(d);
  ZoneAutomaton z;
  bool again = false;
  for (int round = nv::coin(4) && !from ? 3 : 1; round > 0; round--) {
    if (from)
      ta2za(t, z, start);
    else
      ta2za(t, z);
    std::set<std::string> want;
    long work = 0;
    for (int s = 0; s < a.n; s++)
      if (a.init[s]) {
        std::vector<int> p;
        std::string w;
        runs(a, s, p, w, L, from ? &init : nullptr, want, work);
      }
    if (work > 60000)
      return;
    // a graph extended from other initial states needs its initial vertices updated, and may then start in other zones, too
    if (again)
      z.updateInitAccepting(t.initialStates);
    auto got = words(z, L);
    std::string miss = list(want, got), extra = again ? "" : list(got, want);
    nv::check(miss.empty(), "lost", "the zone graph has no accepting path labelled " + miss + " though a run exists");
    nv::check(extra.empty(), onlyZero(a) ? "extra zero" : "extra", "the zone graph has an accepting path labelled " + extra + " though no run exists");
    nv::check(!(z.empty() && !want.empty()), "empty", "the graph is called empty though a run exists");
    if (round > 1) { // the same graph is extended from other initial states
      t.initialStates.clear();
      again = true;
      d += " then from";
      for (int s = 0; s < a.n; s++)
        if ((a.init[s] = nv::coin(3))) {
          t.initialStates.push_back(t.states[s]);
          d += " " + std::to_string(s);
        }
      nv::begin(d);
    }
  }
  for (auto &s : t.states)
    if (nv::coin(4))
      s->isMatch = !s->isMatch;
  t.initialStates.clear();
  for (auto &s : t.states)
    if (nv::coin(3))
      t.initialStates.push_back(s);
  std::sort(t.initialStates.begin(), t.initialStates.end());
  z.updateInitAccepting(t.initialStates);
  bool ok = true;
  std::multiset<ZAState *> in;
  for (auto &s : z.initialStates)
    in.insert(s.get());
  for (auto &s : z.states) {
    bool should = std::any_of(t.initialStates.begin(), t.initialStates.end(), [&](const auto &q) { return q.get() == s->taState; });
    ok = ok && s->isMatch == s->taState->isMatch && in.count(s.get()) == size_t(should);
    in.erase(s.get());
  }
  nv::check(ok && in.empty(), "update", "updateInitAccepting does not give the flags of the timed automaton to every vertex");
}
//! the operations on arbitrary graphs
static void graphs() {
  nv::group = "graph";
  int n = nv::rnd(1, nv::coin(4) ? 9 : 6);
  ZoneAutomaton z;
  std::string d = "states";
  for (int i = 0; i < n; i++) {
    z.states.push_back(std::make_shared<ZAState>(nv::coin(4)));
    z.states.back()->taState = nullptr;
    if (i == 0 || nv::coin(5))
      z.initialStates.push_back(z.states[i]);
    d += " " + std::to_string(i) + (i == 0 || z.initialStates.back() == z.states[i] ? "i" : "") + (z.states[i]->isMatch ? "m" : "");
  }
  const int letters[] = {0, 1, 97, 98, CHAR_MAX - 1};
  std::vector<std::vector<int>> adj(n), eps(n);
  for (int m = nv::rnd(0, 2 * n); m > 0; m--) {
    int s = nv::rnd(0, n - 1), t = nv::rnd(0, n - 1), c = letters[nv::rnd(0, 4)];
    z.states[s]->next[c].push_back(z.states[t]);
    adj[s].push_back(t);
    if (c == 0)
      eps[s].push_back(t);
    d += "; " + std::to_string(s) + "-" + std::to_string(c) + "->" + std::to_string(t);
  }
  if (nv::coin(3)) { // an edge to a vertex that is gone
    auto gone = std::make_shared<ZAState>(true);
    z.states[nv::rnd(0, n - 1)]->next[letters[nv::rnd(0, 4)]].push_back(gone);
    d += "; one edge to a deleted vertex";
  }
  nv::begin(d);
  auto closure = [&](std::vector<bool> r, const std::vector<std::vector<int>> &g) {
    for (int k = 0; k < n; k++)
      for (int s = 0; s < n; s++)
        if (r[s])
          for (int t : g[s])
            r[t] = true;
    return r;
  };
  std::vector<bool> first(n);
  for (int i = 0; i < n; i++)
    first[i] = std::find(z.initialStates.begin(), z.initialStates.end(), z.states[i]) != z.initialStates.end();
  auto reach = closure(first, adj);
  bool any = false;
  for (int i = 0; i < n; i++)
    any = any || (reach[i] && z.states[i]->isMatch);
  nv::check(z.empty() == !any, "empty", any ? "an accepting vertex is reachable but the graph is called empty" : "no accepting vertex is reachable but the graph is not called empty");
  std::vector<bool> some(n);
  std::unordered_set<std::shared_ptr<ZAState>> cl;
  for (int i = 0; i < n; i++)
    if ((some[i] = nv::coin(3)))
      cl.insert(z.states[i]);
  auto want = closure(some, eps);
  epsilonClosure(cl);
  bool ok = true;
  size_t size = 0;
  for (int i = 0; i < n; i++) {
    ok = ok && cl.count(z.states[i]) == size_t(want[i]);
    size += want[i];
  }
  nv::check(ok && cl.size() == size, "closure", "the closure is not the set of vertices reached by epsilon edges");
  cl.clear();
  auto before = words(z, 4);
  std::vector<std::shared_ptr<ZAState>> keep = z.states;
  std::map<ZAState *, int> num;
  for (int i = 0; i < n; i++)
    num[z.states[i].get()] = i;
  std::vector<bool> live(n); // an accepting vertex is reachable
  for (int k = 0; k <= n; k++)
    for (int s = 0; s < n; s++) {
      live[s] = live[s] || z.states[s]->isMatch;
      for (int t : adj[s])
        live[s] = live[s] || live[t];
    }
  if (nv::coin())
    keep.clear();
  z.removeDeadStates();
  auto after = words(z, 4);
  nv::check(before == after, "prune", "pruning changes the language: " + list(before, after) + list(after, before));
  std::set<int> left;
  for (auto &s : z.states) {
    nv::check(num.count(s.get()) && live[num[s.get()]], "dead", "a vertex that cannot reach acceptance is kept");
    left.insert(num[s.get()]);
  }
  nv::check(left.size() == z.states.size(), "dead", "a vertex is listed twice");
  for (auto &s : z.initialStates)
    nv::check(left.count(num[s.get()]), "prune", "an initial vertex is not a vertex");
  for (int i = 0; i < n; i++)
    if (reach[i] && live[i])
      nv::check(left.count(i), "prune", "a vertex on an accepting path was removed");
}
int main(int argc, char **argv) {
  nv::init(argc, argv);
  nv::parallel(nv::thorough ? 7 : 4);
  const int N = nv::thorough ? 2000000 : 20000;
  for (int it = 0; it < N && !nv::timeUp(); it++) {
    if (it == 0) { // the recorded finding, with the smallest automaton that shows it
      nv::group = "ta2za";
      ta::A a;
      a.n = 3, a.k = 1;
      a.init = {true, false, false}, a.match = {false, false, true};
      a.e.push_back({0, 1, 'a', {}, {0}});
      a.e.push_back({1, 2, 'b', {{0, 1, 0}}, {}});
      nv::begin(ta::show(a));
      TimedAutomaton t = ta::build(a);
      ZoneAutomaton z;
      ta2za(t, z);
      nv::check(words(z, 2).empty(), "extra zero", "the zone graph has an accepting path though no run exists");
    }
    zones();
    graphs();
  }
  return nv::done();
}
