// bounded check of TimedAutomaton::deepCopy and isMember on random automata: the copy is compared edge by edge through the mapping it
// returns, before and after the original is changed; membership is compared with a step-by-step simulation on integer-scaled times
#include "common.hh"
#include "ta.hh"

static const long S = 4; // four points per time unit

static ta::A random(int maxStates, int maxClocks) {
  ta::A a;
  a.n = nv::rnd(1, maxStates);
  a.k = nv::rnd(0, maxClocks);
  for (int i = 0; i < a.n; i++) {
    a.init.push_back(i == 0 ? !nv::coin(8) : nv::coin(4));
    a.match.push_back(nv::coin(3));
  }
  int m = nv::rnd(0, 3 * a.n);
  for (int i = 0; i < m; i++) {
    ta::E e{nv::rnd(0, a.n - 1), nv::rnd(0, a.n - 1), "abc"[nv::rnd(0, nv::coin() ? 0 : 2)], ta::randGuard(a.k, 3), ta::randReset(a.k)};
    if (nv::coin(5))
      e.t = e.s;
    if (!a.e.empty() && nv::coin(6)) // an edge that differs from an earlier one in its target or guard only
      e = a.e.back(), e.t = nv::rnd(0, a.n - 1);
    a.e.push_back(e);
  }
  return a;
}
using Key = std::tuple<const TAState *, int, const TAState *, std::vector<std::tuple<int, int, int>>, std::vector<int>>;
static std::multiset<Key> edges(const std::vector<std::shared_ptr<TAState>> &states, const std::function<const TAState *(TAState *)> &f) {
  std::multiset<Key> r;
  for (auto &s : states)
    for (auto &p : s->next)
      for (auto &e : p.second) {
        std::vector<std::tuple<int, int, int>> g;
        for (auto &c : e.guard)
          g.push_back({int(c.x), int(c.odr), c.c});
        r.insert(Key{f(s.get()), int(p.first), f(e.target), g, std::vector<int>(e.resetVars.begin(), e.resetVars.end())});
      }
  return r;
}
static void copyCase() {
  ta::A a = random(6, 3);
  nv::group = "deepCopy";
  bool hole = nv::coin(10);
  TimedAutomaton t = ta::build(a);
  if (hole && !a.e.empty()) { // products may contain transitions without a target
    auto &e = a.e[nv::rnd() % a.e.size()];
    t.states[e.s]->next[e.c].front().target = nullptr;
  }
  for (auto &s : t.states)
    s->zeroDuration = nv::coin(5);
  if (t.initialStates.size() > 1 && nv::coin())
    std::reverse(t.initialStates.begin(), t.initialStates.end());
  nv::begin(ta::show(a) + (hole ? " (one transition without target)" : ""));
  TimedAutomaton d;
  std::unordered_map<TAState *, std::shared_ptr<TAState>> m;
  t.deepCopy(d, m);
  nv::check(d.states.size() == t.states.size() && d.initialStates.size() == t.initialStates.size() && d.maxConstraints == t.maxConstraints, "shape",
            "the copy has another number of states or initial states, or other largest constants");
  std::set<const TAState *> old, fresh, seen;
  for (auto &s : t.states)
    old.insert(s.get());
  for (auto &s : d.states)
    fresh.insert(s.get());
  nv::check(fresh.size() == d.states.size(), "shape", "a state appears twice in the copy");
  bool ok = true;
  for (auto &s : t.states) {
    auto it = m.find(s.get());
    ok = ok && it != m.end() && it->second && fresh.count(it->second.get()) && !old.count(it->second.get()) && seen.insert(it->second.get()).second;
    if (!ok)
      break;
    ok = it->second->isMatch == s->isMatch && it->second->zeroDuration == s->zeroDuration;
  }
  nv::check(ok, "states", "the mapping does not send the states one to one to copies with the same flags");
  if (!ok)
    return;
  auto f = [&](TAState *s) -> const TAState * { return s ? m.at(s).get() : nullptr; };
  auto id = [](TAState *s) -> const TAState * { return s; };
  std::multiset<const TAState *> i1, i2;
  for (auto &s : t.initialStates)
    i1.insert(f(s.get()));
  for (auto &s : d.initialStates)
    i2.insert(s.get());
  nv::check(i1 == i2, "initial", "the initial states of the copy are not the copies of the initial states");
  const auto want = edges(t.states, f);
  nv::check(want == edges(d.states, id), "transitions", "the transitions of the copy are not the copies of the transitions");
  std::vector<std::pair<bool, bool>> flags;
  for (auto &s : d.states)
    flags.push_back({s->isMatch, s->zeroDuration});
  for (auto &s : t.states) {
    s->isMatch = !s->isMatch;
    for (auto &p : s->next)
      for (auto &e : p.second)
        e.target = t.states[0].get(), e.guard.clear(), e.resetVars.push_back(7);
    if (nv::coin())
      s->next.clear();
  }
  t.maxConstraints.push_back(9);
  const auto maxc = d.maxConstraints;
  bool same = want == edges(d.states, id) && maxc.size() + 1 == t.maxConstraints.size();
  for (size_t i = 0; i < d.states.size(); i++)
    same = same && flags[i] == std::make_pair(d.states[i]->isMatch, d.states[i]->zeroDuration);
  nv::check(same, "sharing", "a change of the original shows in the copy");
}
static void memberCase() {
  ta::A a = random(5, 3);
  nv::group = "isMember";
  TimedAutomaton t = ta::build(a);
  for (int j = nv::thorough ? 8 : 4; j > 0; j--) {
    std::vector<std::pair<char, long>> w;
    std::vector<std::pair<Alphabet, double>> v;
    long now = 0;
    std::string d = ta::show(a) + " on";
    int n = nv::rnd(0, 6);
    std::set<ta::Conf> cs = ta::start(a, 0);
    for (int i = 0; i < n; i++) {
      now += nv::coin(4) ? 0 : nv::coin() ? S * nv::rnd(0, 2) : nv::rnd(0, 3 * S);
      char c = "abc"[nv::rnd(0, nv::coin() ? 0 : 2)];
      for (int tries = 0; tries < 3; tries++) { // prefer letters that lead somewhere
        auto nx = ta::step(a, cs, c, now, S);
        if (!nx.empty())
          break;
        c = "abc"[nv::rnd(0, 2)];
      }
      cs = ta::step(a, cs, c, now, S);
      w.push_back({c, now});
      v.push_back({c, double(now) / S});
      d += std::string(" ") + c + " " + nv::num(double(now) / S);
    }
    nv::begin(d, n > 0 && !cs.empty());
    bool want = ta::accepts(a, w, S), got = t.isMember(v);
    nv::check(got == want, "member", want ? "an accepting run exists" : "no accepting run exists");
    nv::check(t.isMember(v) == got, "member", "asking twice gives two answers");
  }
}
int main(int argc, char **argv) {
  nv::init(argc, argv);
  nv::parallel(nv::thorough ? 7 : 4);
  const int N = nv::thorough ? 2000000 : 60000;
  for (int it = 0; it < N && !nv::timeUp(); it++) {
    copyCase();
    memberCase();
  }
  return nv::done();
}
