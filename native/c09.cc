// bounded check of intersectionTA and intersectionSignalTA: the product is run on timed words with explicit epsilon moves and compared
// with runs of the two operands; times are integers scaled by 2
#include "common.hh"
#include "ta.hh"
#include "intersection.hh"

static const long S = 2;
using W = std::vector<std::pair<char, long>>;
static std::string show(const W &w) {
  std::string s;
  for (auto &e : w)
    s += " " + ta::lab(e.first) + " " + nv::num(double(e.second) / S);
  return s.empty() ? " (empty)" : s;
}
static ta::A random(int maxStates, int maxClocks, bool eps, bool signal) {
  ta::A a;
  a.n = nv::rnd(1, maxStates);
  a.k = nv::rnd(0, maxClocks);
  for (int i = 0; i < a.n; i++) {
    a.init.push_back(i == 0 || nv::coin(4));
    a.match.push_back(i == a.n - 1 || nv::coin(3));
  }
  std::string label;
  for (int i = 0; i < a.n; i++)
    label += "ab"[nv::rnd(0, 1)];
  int m = nv::rnd(0, 3 * a.n);
  for (int i = 0; i < m; i++) {
    ta::E e{nv::rnd(0, a.n - 1), nv::rnd(0, a.n - 1), "ab"[nv::rnd(0, 1)], ta::randGuard(a.k, 2, 2), ta::randReset(a.k)};
    if (signal) { // one letter per state, accepting states without successors
      if (a.match[e.s])
        continue;
      e.c = label[e.s];
    } else if (eps && nv::coin(4))
      e.c = 0;
    a.e.push_back(e);
  }
  return a;
}
//! runs of both operands side by side over the same explicit word; who[i]: 1 first moves, 2 second moves, 3 both
struct Pair { ta::Conf a, b; bool operator<(const Pair &o) const { return std::tie(a, b) < std::tie(o.a, o.b); } };
static std::set<Pair> step2(const ta::A &a, const ta::A &b, const std::set<Pair> &ps, char c, long t, bool both, bool signal) {
  std::set<Pair> r;
  for (auto &p : ps) {
    auto move = [&](char la, char lb) { // 1 for "does not move"
      auto x = la == 1 ? std::set<ta::Conf>{p.a} : ta::step(a, {p.a}, la, t, S);
      auto y = lb == 1 ? std::set<ta::Conf>{p.b} : ta::step(b, {p.b}, lb, t, S);
      for (auto &u : x)
        for (auto &v : y)
          r.insert({u, v});
    };
    if (c) {
      move(c, c);
      continue;
    }
    move(0, 1);
    move(1, 0);
    if (both)
      move(0, 0);
    if (signal)
      for (char l : {'a', 'b'}) {
        auto has = [&](const ta::A &g, int s) { return std::any_of(g.e.begin(), g.e.end(), [&](const ta::E &e) { return e.s == s && e.c == l; }); };
        if (has(a, p.a.first) && has(b, p.b.first)) {
          move(l, 1);
          move(1, l);
        }
      }
  }
  return r;
}
static bool anyMatch(const ta::A &a, const ta::A &b, const std::set<Pair> &ps) {
  return std::any_of(ps.begin(), ps.end(), [&](const Pair &p) { return a.match[p.a.first] && b.match[p.b.first]; });
}
static std::set<Pair> start2(const ta::A &a, const ta::A &b) {
  std::set<Pair> r;
  for (auto &x : ta::start(a, 0))
    for (auto &y : ta::start(b, 0))
      r.insert({x, y});
  return r;
}
//! a transition without target is no transition
static void dropHoles(TimedAutomaton &t) {
  for (auto &s : t.states)
    for (auto &p : s->next)
      p.second.erase(std::remove_if(p.second.begin(), p.second.end(), [](const TATransition &e) { return !e.target; }), p.second.end());
}
static void one() {
  const bool signal = nv::coin(4), eps = !signal && nv::coin(3);
  nv::group = signal ? "signal" : eps ? "epsilon" : "plain";
  ta::A a = random(4, 2, eps, signal), b = random(4, 2, eps, signal);
  const bool same = nv::coin(12);
  if (same)
    b = a;
  TimedAutomaton ta1 = ta::build(a), tb = ta::build(b);
  TimedAutomaton out;
  boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m;
  std::string d = ta::show(a) + " and " + (same ? "itself" : ta::show(b));
  nv::begin(d, !a.e.empty() && !b.e.empty());
  const TimedAutomaton &second = same ? ta1 : tb;
  if (signal)
    intersectionSignalTA(ta1, second, out);
  else
    intersectionTA(ta1, second, out, m);
  ta::A p;
  dropHoles(out);
  bool ok = ta::readBack(out, p);
  nv::check(ok, "shape", "the product has a target that is not one of its states or uses a clock it does not have");
  if (!ok)
    return;
  nv::check(out.clockSize() == size_t(a.k + b.k), "shape", "the clocks of the product are not those of the operands side by side");
  for (auto &e : p.e)
    for (auto &g : e.g)
      nv::check(g.c <= out.maxConstraints[g.x], "maximum", "a guard of the product exceeds the largest constant of its clock");
  ta::A back;
  auto show0 = [](const ta::A &x) { ta::A y = x; std::stable_sort(y.e.begin(), y.e.end(), [](const ta::E &u, const ta::E &v) { return std::tie(u.s, u.c) < std::tie(v.s, v.c); }); return ta::show(y); };
  nv::check(ta::readBack(ta1, back) && show0(back) == show0(a), "operands", "the first operand was changed");
  nv::check(ta::readBack(second, back) && show0(back) == show0(b), "operands", "the second operand was changed");
  for (int j = nv::thorough ? 30 : 12; j > 0; j--) {
    W w;
    long now = 0;
    int n = nv::rnd(0, 5);
    auto must = start2(a, b), may = must;
    auto ps = ta::start(p, 0);
    auto pick = [&] { return eps || signal ? "ab\0\0"[nv::rnd(0, 3)] : "ab"[nv::rnd(0, 1)]; };
    for (int i = 0; i < n; i++) {
      now += nv::coin(4) ? 0 : nv::rnd(0, 2 * S + 1);
      char c = pick();
      for (int tries = 0; tries < 4 && step2(a, b, must, c, now, true, signal).empty(); tries++)
        c = pick();
      w.push_back({c, now});
      must = step2(a, b, must, c, now, false, signal);
      may = step2(a, b, may, c, now, true, signal);
      ps = ta::step(p, ps, c, now, S);
      bool got = std::any_of(ps.begin(), ps.end(), [&](const ta::Conf &x) { return p.match[x.first]; });
      if (!got && anyMatch(a, b, must))
        nv::fail("lost", d + " -- both accept" + show(w) + " but the product does not");
      if (got && !anyMatch(a, b, may))
        nv::fail("extra", d + " -- the product accepts" + show(w) + " but the operands do not");
    }
    if (n == 0) {
      bool got = ta::accepts(p, {}, S);
      nv::check(got == anyMatch(a, b, must), "empty", "the empty word is treated differently by the product");
    }
  }
}
static void update() {
  nv::group = "updateInitAccepting";
  ta::A a = random(4, 1, false, false), b = random(4, 1, false, false);
  TimedAutomaton ta1 = ta::build(a), tb = ta::build(b), out;
  boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m;
  intersectionTA(ta1, tb, out, m);
  ta::A a2 = a, b2 = b;
  auto change = [](ta::A &x, TimedAutomaton &t) {
    t.initialStates.clear();
    for (int i = 0; i < x.n; i++) {
      x.match[i] = t.states[i]->isMatch = nv::coin();
      if ((x.init[i] = nv::coin()))
        t.initialStates.push_back(t.states[i]);
    }
  };
  change(a2, ta1);
  change(b2, tb);
  nv::begin(ta::show(a) + " and " + ta::show(b) + " changed to " + ta::show(a2) + " and " + ta::show(b2));
  updateInitAccepting(ta1, tb, out, m);
  ta::A p;
  bool ok = ta::readBack(out, p);
  nv::check(ok, "shape", "the product has a target that is not one of its states");
  if (!ok)
    return;
  for (int i = 0; i < a.n; i++)
    for (int j = 0; j < b.n; j++) {
      auto it = m.find({ta1.states[i].get(), tb.states[j].get()});
      if (it == m.end() || !it->second) {
        nv::fail("update", std::string(nv::cur) + " -- a pair of states has no state in the product");
        return;
      }
      nv::check(it->second->isMatch == (a2.match[i] && b2.match[j]), "update", "wrong accepting flag");
      bool in = std::find(out.initialStates.begin(), out.initialStates.end(), it->second) != out.initialStates.end();
      nv::check(in == (a2.init[i] && b2.init[j]), "update", "wrong initial flag");
    }
}
int main(int argc, char **argv) {
  nv::init(argc, argv);
  nv::parallel(nv::thorough ? 7 : 4);
  const int N = nv::thorough ? 2000000 : 40000;
  for (int it = 0; it < N && !nv::timeUp(); it++) {
    one();
    if (it % 4 == 0)
      update();
  }
  return nv::done();
}
