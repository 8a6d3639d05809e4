// bounded check of parseBoostTA and convBoostTA: random automata are written as DOT in many layouts and read back; also the output of
// operator<< (what tre2ta prints) is read back
#include "common.hh"
#include "ta.hh"
#include "timed_automaton_parser.hh"

static std::string guard(const std::vector<ta::G> &g) {
  std::string s = "{";
  for (size_t i = 0; i < g.size(); i++)
    s += (i ? ", x" : "x") + std::to_string(g[i].x) + " " + ta::OPS[g[i].o] + " " + std::to_string(g[i].c);
  return s + "}";
}
static std::string reset(const std::vector<int> &r) {
  std::string s = "{";
  for (size_t i = 0; i < r.size(); i++)
    s += (i ? ", " : "") + std::to_string(r[i]);
  return s + "}";
}
using Edge = std::tuple<int, int, char, std::vector<std::tuple<int, int, int>>, std::vector<int>>;
static std::multiset<Edge> edges(const ta::A &a, const std::vector<int> &to) {
  std::multiset<Edge> r;
  for (auto &e : a.e) {
    std::vector<std::tuple<int, int, int>> g;
    for (auto &x : e.g)
      g.push_back({x.x, x.o, x.c});
    r.insert(Edge{to[e.s], to[e.t], e.c, g, e.r});
  }
  return r;
}
//! compare up to the numbering of the states; every state of want carries a marker loop "M" with the guard x0 > 1000+number
static void compare(const ta::A &want, const TimedAutomaton &t, const std::string &d) {
  ta::A got;
  if (!ta::readBack(t, got)) {
    nv::fail("clocks", d + " -- a transition uses a clock the automaton does not have, or leads outside of it");
    return;
  }
  std::vector<int> to(got.n, -1);
  for (auto &e : got.e)
    if (e.c == 'M' && e.s == e.t && e.g.size() == 1 && e.g[0].c > 1000 && e.g[0].c <= 1000 + want.n)
      to[e.s] = e.g[0].c - 1001;
  bool ok = got.n == want.n;
  for (int i = 0; ok && i < got.n; i++)
    ok = to[i] >= 0;
  nv::check(ok, "states", "not the states that are described");
  if (!ok)
    return;
  size_t init = 0, inits = 0;
  for (int i = 0; i < got.n; i++) {
    nv::check(got.init[i] == want.init[to[i]], "initial", "state " + std::to_string(to[i]) + " has the wrong initial flag");
    nv::check(got.match[i] == want.match[to[i]], "accepting", "state " + std::to_string(to[i]) + " has the wrong accepting flag");
    inits += got.init[i];
  }
  init = t.initialStates.size();
  nv::check(init == inits, "initial", "an initial state is listed twice");
  std::vector<int> id(want.n);
  for (int i = 0; i < want.n; i++)
    id[i] = i;
  nv::check(edges(got, to) == edges(want, id), "transitions", "not the transitions that are described");
  for (auto &e : want.e)
    for (auto &g : e.g)
      nv::check(size_t(g.x) < t.clockSize() && t.maxConstraints[g.x] >= g.c, "maximum", "the largest constant of x" + std::to_string(g.x) + " does not cover a guard");
}
//! the same without markers: some numbering of the states gives the automaton described (few states only)
static void compareSmall(const ta::A &want, const TimedAutomaton &t, const std::string &d) {
  ta::A got;
  if (!ta::readBack(t, got)) {
    nv::fail("clocks", d + " -- a transition uses a clock the automaton does not have, or leads outside of it");
    return;
  }
  bool ok = got.n == want.n;
  nv::check(ok, "states", "not the states that are described");
  if (!ok)
    return;
  std::vector<int> id(want.n), to(want.n);
  for (int i = 0; i < want.n; i++)
    id[i] = to[i] = i;
  const auto w = edges(want, id);
  bool found = false;
  do {
    found = true;
    for (int i = 0; i < want.n && found; i++)
      found = got.init[i] == want.init[to[i]] && got.match[i] == want.match[to[i]];
    found = found && edges(got, to) == w;
  } while (!found && std::next_permutation(to.begin(), to.end()));
  nv::check(found, "transitions", "not the automaton that is described");
}
int main(int argc, char **argv) {
  nv::init(argc, argv);
  nv::parallel(nv::thorough ? 7 : 4);
  const int N = nv::thorough ? 1000000 : 20000;
  for (int it = 0; it < N && !nv::timeUp(); it++) {
    ta::A a;
    const bool marked = !nv::coin(3);
    a.n = nv::rnd(1, !marked ? 4 : nv::coin(5) ? 14 : 5);
    const int k = nv::coin(8) ? 12 : 3;
    for (int i = 0; i < a.n; i++) {
      a.init.push_back(nv::coin(3));
      a.match.push_back(nv::coin(3));
    }
    const int bits = it == 0 ? 0 : 3; // the first case: nothing left out
    for (int m = nv::rnd(0, 2 * a.n); m > 0; m--) {
      char c = nv::coin(6) ? '$' : nv::coin() ? 'a' + nv::rnd(0, 25) : 'A' + nv::rnd(0, 11);
      ta::E e{nv::rnd(0, a.n - 1), nv::rnd(0, a.n - 1), c, ta::randGuard(k, nv::coin(4) ? 100000 : 9, nv::coin(5) ? 6 : 3), ta::randReset(k)};
      if (e.r.size() > 1 && nv::coin())
        std::reverse(e.r.begin(), e.r.end());
      a.e.push_back(e);
    }
    for (int i = 0; i < a.n && marked; i++)
      a.e.push_back({i, i, 'M', {{0, 3, 1001 + i}}, {}});
    if (nv::coin()) { // the order of the transitions
      for (int i = a.e.size() - 1; i > 0; i--)
        std::swap(a.e[i], a.e[nv::rnd(0, i)]);
    }
    std::string dot;
    const bool own = nv::coin(5);
    if (own) {
      nv::group = "own output";
      ta::A b = a;
      b.k = 12;
      TimedAutomaton t = ta::build(b);
      std::ostringstream os;
      os << t;
      dot = os.str();
    } else {
      nv::group = "layout";
      // layout: names, separators, default attributes, quotes, order of statements
      const int names = nv::rnd(0, 3);
      auto name = [&](int i) { return names == 0 ? std::to_string(i + 1) : names == 1 ? "loc" + std::to_string((i * 7) % 15) : names == 2 ? "\"state " + std::to_string(a.n - i) + "\"" : std::string(1, 'a' + i) + "_"; };
      const char *sep[] = {", ", ",", " ", "; ", "\n,\n"};
      const char *end[] = {";\n", "\n", " ; "};
      auto attrs = [&](std::vector<std::string> v) {
        for (int i = int(v.size()) - 1; i > 0; i--)
          std::swap(v[i], v[nv::rnd(0, i)]);
        std::string s = " [";
        for (size_t i = 0; i < v.size(); i++)
          s += (i == 0 ? "" : nv::coin(8) ? "] [" : sep[nv::rnd(0, 4)]) + v[i];
        return s + "]";
      };
      auto eq = [&](const char *n, const std::string &v) { return std::string(n) + (nv::coin(4) ? " = " : "=") + v; };
      auto q = [&](const std::string &v) { return nv::coin(3) ? "\"" + v + "\"" : v; };
      const int def = bits ? nv::rnd(0, 3) : 0;
      std::vector<std::string> nodes, arcs;
      for (int i = 0; i < a.n; i++) {
        std::vector<std::string> v;
        if (!(def & 1) || a.init[i])
          if (!bits || a.init[i] || !nv::coin(4))
            v.push_back(eq("init", q(a.init[i] ? "1" : "0")));
        if (!(def & 2) || a.match[i])
          if (!bits || a.match[i] || !nv::coin(4))
            v.push_back(eq("match", q(a.match[i] ? "1" : "0")));
        if (nv::coin(6))
          v.push_back(eq("shape", "circle"));
        nodes.push_back(name(i) + (v.empty() && nv::coin() ? "" : attrs(v)) + end[nv::rnd(0, 2)]);
      }
      for (auto &e : a.e) {
        std::vector<std::string> v{eq("label", e.c == '$' ? "\"$\"" : q(std::string(1, e.c)))};
        if (!e.g.empty())
          v.push_back(eq("guard", "\"" + guard(e.g) + "\""));
        if (!e.r.empty())
          v.push_back(eq("reset", "\"" + reset(e.r) + "\""));
        if (nv::coin(6))
          v.push_back(eq("color", "red"));
        arcs.push_back(name(e.s) + (nv::coin() ? "->" : " -> ") + name(e.t) + attrs(v) + end[nv::rnd(0, 2)]);
      }
      dot = nv::coin(4) ? "digraph {\n" : "digraph G {\n";
      if (nv::coin(4))
        dot += "/* a comment */\n";
      if (def)
        dot += "node" + attrs(def == 1 ? std::vector<std::string>{"init=0"} : def == 2 ? std::vector<std::string>{"match=0"} : std::vector<std::string>{"init=0", "match=0"}) + ";\n";
      if (nv::coin(8)) // states named by the transitions first
        for (auto &x : arcs)
          dot += x;
      else
        arcs.swap(nodes), arcs.swap(nodes);
      std::string tail;
      const bool first = dot.find("->") == std::string::npos;
      for (auto &x : nodes)
        dot += x;
      if (first)
        for (auto &x : arcs)
          dot += x;
      dot += "}\n";
    }
    nv::begin(dot);
    std::string d = nv::cur;
    // leave garbage where the reader will allocate
    for (int i = 0; i < 8; i++) {
      void *p = malloc(40 + 8 * i);
      memset(p, 0xff, 40 + 8 * i);
      free(p);
    }
    std::istringstream in(dot);
    BoostTimedAutomaton b;
    TimedAutomaton t;
    try {
      parseBoostTA(in, b);
      convBoostTA(b, t);
    } catch (std::exception &e) {
      nv::fail("rejected", d + " -- the description is rejected: " + e.what());
      continue;
    }
    (marked ? compare : compareSmall)(a, t, d);
    if (it % 16 == 0) { // the target is overwritten
      convBoostTA(b, t);
      (marked ? compare : compareSmall)(a, t, d);
    }
  }
  return nv::done();
}
