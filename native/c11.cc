// bounded check of TRE::toEventTA: random expressions, random and sampled timed words, acceptance of the automaton against the
// language of the expression computed by splitting the word; times are integers scaled by 2
#include "common.hh"
#include "ta.hh"
#include "tre.hh"

static const long S = 2;
using W = std::vector<std::pair<char, long>>;
struct X { // an expression, kept apart from the code under test
  char op; // 'a' letter, '@' empty word, '+', '.', '|', '&', '%'
  char c = 0;
  std::shared_ptr<X> l, r;
  int lo = 0, up = 0; // up < 0: no upper bound
  bool loc = false, upc = false;
};
using P = std::shared_ptr<X>;
static std::string show(const P &x) {
  switch (x->op) {
  case 'a': return std::string(1, x->c);
  case '@': return "@";
  case '+': return "(" + show(x->l) + ")+";
  case '%':
    return "(" + show(x->l) + ")%" + (x->loc ? "[" : "(") + std::to_string(x->lo) + "," + (x->up < 0 ? "inf" : std::to_string(x->up)) + (x->upc ? "]" : ")");
  case '.': return "(" + show(x->l) + " " + show(x->r) + ")";
  default: return "(" + show(x->l) + x->op + show(x->r) + ")";
  }
}
static std::shared_ptr<TRE> build(const P &x) {
  switch (x->op) {
  case 'a': return std::make_shared<TRE>(TRE::op::atom, x->c);
  case '@': return TRE::epsilon;
  case '+': return std::make_shared<TRE>(TRE::op::plus, build(x->l));
  case '%': {
    const Bounds lo(x->lo, x->loc), up = x->up < 0 ? Bounds(std::numeric_limits<double>::infinity(), false) : Bounds(x->up, x->upc);
    return std::make_shared<TRE>(TRE::op::within, build(x->l), std::make_shared<Interval>(lo, up));
  }
  default: {
    auto l = build(x->l), r = build(x->r);
    return std::make_shared<TRE>(x->op == '.' ? TRE::op::concat : x->op == '|' ? TRE::op::disjunction : TRE::op::conjunction, l, r);
  }
  }
}
static P mk(char op, P l, P r = nullptr) {
  auto x = std::make_shared<X>();
  x->op = op, x->l = l, x->r = r;
  return x;
}
static P random(int depth) {
  if (depth == 0 || nv::coin(7)) {
    auto x = std::make_shared<X>();
    x->op = 'a';
    x->c = "aab$"[nv::rnd(0, 3)];
    return x;
  }
  switch (nv::rnd(0, 8)) {
  case 0: return mk('+', random(depth - 1));
  case 1: { // the star of the parser
    auto e = std::make_shared<X>();
    e->op = '@';
    return mk('|', e, mk('+', random(depth - 1)));
  }
  case 2: return mk('|', random(depth - 1), random(depth - 1));
  case 3: return mk('&', random(depth - 1), random(depth - 1));
  case 4:
  case 5: {
    auto x = mk('%', random(depth - 1));
    x->lo = nv::rnd(0, 2);
    x->loc = nv::coin();
    x->up = nv::coin(5) ? -1 : x->lo + nv::rnd(0, 2);
    x->upc = x->up >= 0 && nv::coin();
    return x;
  }
  default: return mk('.', random(depth - 1), random(depth - 1));
  }
}
struct Oracle {
  const W &w;
  std::map<std::tuple<const X *, int, int>, bool> memo;
  long at(int i) { return i == 0 ? 0 : w[i - 1].second; }
  bool in(const P &x, int i, int j) {
    auto key = std::make_tuple(x.get(), i, j);
    auto it = memo.find(key);
    if (it != memo.end())
      return it->second;
    bool r = false;
    switch (x->op) {
    case 'a': r = j == i + 1 && w[i].first == x->c; break;
    case '@': r = i == j; break;
    case '|': r = in(x->l, i, j) || in(x->r, i, j); break;
    case '&': r = in(x->l, i, j) && in(x->r, i, j); break;
    case '.':
      for (int k = i; k <= j && !r; k++)
        r = in(x->l, i, k) && in(x->r, k, j);
      break;
    case '+':
      r = in(x->l, i, j);
      for (int k = i + 1; k < j && !r; k++)
        r = in(x->l, i, k) && in(x, k, j);
      break;
    case '%': {
      long d = at(j) - at(i);
      r = (x->loc ? d >= x->lo * S : d > x->lo * S) && (x->up < 0 || (x->upc ? d <= x->up * S : d < x->up * S)) && in(x->l, i, j);
      break;
    }
    }
    return memo[key] = r;
  }
};
//! letters of some word of the expression with delays that tend to respect the restrictions; false if the operands of & disagree
static bool sample(const P &x, std::vector<std::pair<char, long>> &out) {
  switch (x->op) {
  case 'a': out.push_back({x->c, nv::coin(3) ? 0 : nv::rnd(0, 2 * S)}); return true;
  case '@': return true;
  case '|': return sample(nv::coin() ? x->l : x->r, out);
  case '&': return sample(nv::coin() ? x->l : x->r, out);
  case '.': return sample(x->l, out) && sample(x->r, out);
  case '+':
    for (int k = nv::rnd(1, 2); k > 0; k--)
      if (!sample(x->l, out))
        return false;
    return true;
  default: {
    size_t n = out.size();
    if (!sample(x->l, out))
      return false;
    if (out.size() > n) { // move the total into or next to the interval
      long d = 0;
      for (size_t i = n; i < out.size(); i++)
        d += out[i].second;
      long want = x->lo * S + nv::rnd(0, x->up < 0 ? 3 : (x->up - x->lo) * S);
      while (d > want && d > 0) {
        auto &e = out[nv::rnd(n, out.size() - 1)].second;
        if (e > 0)
          e--, d--;
      }
      out[nv::rnd(n, out.size() - 1)].second += want - d;
    }
    return true;
  }
  }
}
//! vary the addresses the allocator will hand out
static void shuffleHeap() {
  std::vector<std::shared_ptr<TAState>> v;
  for (int i = 0; i < 40; i++)
    v.push_back(std::make_shared<TAState>());
  for (int i = 39; i > 0; i--)
    std::swap(v[i], v[nv::rnd(0, i)]);
  for (auto &s : v)
    s.reset();
}
int main(int argc, char **argv) {
  nv::init(argc, argv);
  nv::parallel(nv::thorough ? 7 : 4);
  const int N = nv::thorough ? 2000000 : 80000;
  long yes = 0;
  for (int it = 0; it < N && !nv::timeUp(); it++) {
    P x = random(nv::coin(4) ? nv::rnd(3, 5) : nv::rnd(1, 3));
    nv::group = "toEventTA";
    std::string d = show(x);
    nv::begin(d);
    shuffleHeap();
    auto e = build(x);
    TimedAutomaton out;
    e->toEventTA(out);
    for (auto &s : out.states)
      for (auto &p : s->next)
        p.second.erase(std::remove_if(p.second.begin(), p.second.end(), [](const TATransition &t) { return !t.target; }), p.second.end());
    ta::A a;
    bool ok = out.states.size() < 400 && ta::readBack(out, a);
    nv::check(ok || out.states.size() >= 400, "shape", "a target is not one of the states, or a clock is out of range");
    if (!ok)
      continue;
    for (auto &t : a.e)
      for (auto &g : t.g)
        if (g.c > out.maxConstraints[g.x]) {
          nv::fail("maximum", d + " -- a guard exceeds the largest constant recorded for its clock");
          break;
        }
    for (int j = 0; j < 12; j++) {
      W w;
      if (j > 0) {
        std::vector<std::pair<char, long>> v;
        if (j % 3 != 0) {
          if (!sample(x, v))
            continue;
          if (v.size() > 12)
            continue;
          if (nv::coin(3) && !v.empty()) {
            auto &q = v[nv::rnd() % v.size()];
            nv::coin() ? (void)(q.second += 1) : (void)(q.second > 0 ? q.second-- : 0);
          }
        } else
          for (int k = nv::rnd(0, 4); k > 0; k--)
            v.push_back({"aab$"[nv::rnd(0, 3)], nv::rnd(0, 2 * S)});
        long now = 0;
        for (auto &q : v)
          w.push_back({q.first, now += q.second});
      }
      Oracle o{w, {}};
      bool want = o.in(x, 0, w.size()), got = ta::accepts(a, w, S);
      yes += want && !w.empty();
      if (want != got) {
        std::string s;
        for (auto &q : w)
          s += std::string(" ") + q.first + " " + nv::num(double(q.second) / S);
        nv::fail(w.empty() ? "empty" : "language", d + (want ? " contains" : " does not contain") + (w.empty() ? " the empty word" : s) + " but the automaton " + (got ? "accepts it" : "rejects it"));
      }
    }
  }
  if (nv::fails.empty() && nv::cases > 3000 && yes < 1000)
    nv::fail("oracle", "the sampled words are almost never in the language");
  return nv::done();
}
