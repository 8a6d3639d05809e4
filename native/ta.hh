// abstract timed automata for the harnesses: generation, printing, an independent acceptance oracle on scaled integer times
#pragma once
#include "common.hh"
#include "timed_automaton.hh"

namespace ta {
struct G { int x, o, c; }; // o: 0 <, 1 <=, 2 >=, 3 >
struct E { int s, t; char c; std::vector<G> g; std::vector<int> r; };
struct A { int n = 0, k = 0; std::vector<bool> init, match; std::vector<E> e; };
static const char *OPS[] = {"<", "<=", ">=", ">"};

inline std::string lab(char c) { return c == 0 ? "eps" : std::string(1, c); }
inline std::string show(const A &a) {
  std::string s = "TA{";
  for (int i = 0; i < a.n; i++)
    s += std::to_string(i) + (a.init[i] ? "i" : "") + (a.match[i] ? "m" : "") + " ";
  for (auto &e : a.e) {
    s += "; " + std::to_string(e.s) + "-" + lab(e.c);
    for (auto &g : e.g)
      s += " x" + std::to_string(g.x) + OPS[g.o] + std::to_string(g.c);
    for (int r : e.r)
      s += " x" + std::to_string(r) + ":=0";
    s += "->" + std::to_string(e.t);
  }
  return s + "}";
}
inline Constraint mk(const G &g) {
  ConstraintMaker m(g.x);
  return g.o == 0 ? m < g.c : g.o == 1 ? m <= g.c : g.o == 2 ? m >= g.c : m > g.c;
}
inline TimedAutomaton build(const A &a) {
  TimedAutomaton t;
  for (int i = 0; i < a.n; i++)
    t.states.push_back(std::make_shared<TAState>(a.match[i]));
  for (int i = 0; i < a.n; i++)
    if (a.init[i])
      t.initialStates.push_back(t.states[i]);
  t.maxConstraints.assign(a.k, 0);
  for (auto &e : a.e) {
    TATransition tr;
    tr.target = t.states[e.t].get();
    for (auto &g : e.g) {
      tr.guard.push_back(mk(g));
      t.maxConstraints[g.x] = std::max(t.maxConstraints[g.x], g.c);
    }
    for (int r : e.r)
      tr.resetVars.push_back(r);
    t.states[e.s]->next[e.c].push_back(tr);
  }
  return t;
}
//! read an automaton back; false if it is not closed (a target that is not a state, a clock out of range)
inline bool readBack(const TimedAutomaton &t, A &a) {
  a = A();
  a.n = t.states.size();
  a.k = t.clockSize();
  std::map<const TAState *, int> num;
  for (int i = 0; i < a.n; i++)
    num[t.states[i].get()] = i;
  a.init.assign(a.n, false);
  for (auto &s : t.initialStates) {
    if (!num.count(s.get()))
      return false;
    a.init[num[s.get()]] = true;
  }
  for (auto &s : t.states)
    a.match.push_back(s->isMatch);
  for (int i = 0; i < a.n; i++) {
    std::map<char, const std::vector<TATransition> *> sorted;
    for (auto &p : t.states[i]->next)
      sorted[p.first] = &p.second;
    for (auto &p : sorted)
      for (auto &e : *p.second) {
        if (!num.count(e.target))
          return false;
        E x{i, num[e.target], p.first, {}, {}};
        for (auto &g : e.guard) {
          if (g.x >= a.k)
            return false;
          int o = g.odr == Constraint::Order::lt ? 0 : g.odr == Constraint::Order::le ? 1 : g.odr == Constraint::Order::ge ? 2 : 3;
          x.g.push_back({g.x, o, g.c});
        }
        for (auto r : e.resetVars) {
          if (r >= a.k)
            return false;
          x.r.push_back(r);
        }
        a.e.push_back(x);
      }
  }
  return true;
}
inline bool sat(long v, int o, long c) { return o == 0 ? v < c : o == 1 ? v <= c : o == 2 ? v >= c : v > c; }
using Conf = std::pair<int, std::vector<long>>; // state, last reset time of each clock
//! configurations after one letter at time t (times scaled by S)
inline std::set<Conf> step(const A &a, const std::set<Conf> &cs, char c, long t, long S) {
  std::set<Conf> r;
  for (auto &cf : cs)
    for (auto &e : a.e) {
      if (e.s != cf.first || e.c != c)
        continue;
      bool ok = true;
      for (auto &g : e.g)
        ok = ok && sat(t - cf.second[g.x], g.o, g.c * S);
      if (!ok)
        continue;
      auto v = cf.second;
      for (int x : e.r)
        v[x] = t;
      r.insert({e.t, v});
    }
  return r;
}
inline std::set<Conf> start(const A &a, long t) {
  std::set<Conf> r;
  for (int i = 0; i < a.n; i++)
    if (a.init[i])
      r.insert({i, std::vector<long>(a.k, t)});
  return r;
}
inline bool accepts(const A &a, const std::vector<std::pair<char, long>> &w, long S, long from = 0) {
  auto cs = start(a, from);
  for (auto &e : w)
    cs = step(a, cs, e.first, e.second, S);
  for (auto &c : cs)
    if (a.match[c.first])
      return true;
  return false;
}
inline std::vector<G> randGuard(int k, int maxc, int many = 3) {
  std::vector<G> g;
  if (k)
    for (int i = nv::coin(2) ? nv::rnd(0, many) : nv::rnd(0, 1); i > 0; i--)
      g.push_back({nv::rnd(0, k - 1), nv::rnd(0, 3), nv::rnd(0, maxc)});
  return g;
}
inline std::vector<int> randReset(int k) {
  std::vector<int> r;
  for (int x = 0; x < k; x++)
    if (nv::coin(3))
      r.push_back(x);
  return r;
}
} // namespace ta
