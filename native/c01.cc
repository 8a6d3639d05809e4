// bounded check of guards against their textbook meaning (exhaustive over a grid)
#include "common.hh"
#include "constraint.hh"

static const char *names[] = {"<", "<=", ">=", ">"};
static bool meaning(int o, double d, int c) { return o == 0 ? d < c : o == 1 ? d <= c : o == 2 ? d >= c : d > c; }
static int code(Constraint::Order o) { return o == Constraint::Order::lt ? 0 : o == Constraint::Order::le ? 1 : o == Constraint::Order::ge ? 2 : 3; }

int main(int argc, char **argv) {
  nv::init(argc, argv);
  std::vector<int> cs = {0, 1, 2, 3, 7, 10, 255, 256, 1000, 65536, 2147483647, -1, -5};
  nv::group = "guard";
  auto build = [](int x, int o, int c) {
    return o == 0 ? ConstraintMaker(x) < c : o == 1 ? ConstraintMaker(x) <= c : o == 2 ? ConstraintMaker(x) >= c : ConstraintMaker(x) > c;
  };
  for (int x : {0, 1, 2, 5, 254})
    for (int o = 0; o < 4; o++)
      for (int c : cs) {
        Constraint g = build(x, o, c);
        nv::begin("x" + std::to_string(x) + names[o] + std::to_string(c));
        nv::check(g.x == x && g.c == c && code(g.odr) == o, "maker", "the built constraint is different");
        for (double e : {-2.0, -1.0, -0.5, -1e-9, 0.0, 1e-9, 0.5, 1.0, 2.0, 100.0}) {
          double d = c + e;
          nv::begin("x" + std::to_string(x) + names[o] + std::to_string(c) + " at " + nv::num(d));
          bool m = meaning(o, d, c);
          nv::check(g.satisfy(d) == m, "satisfy", "satisfy disagrees with the comparison");
          std::vector<double> val(x + 1, d + 17);
          val[x] = d;
          ::Order r = g(val);
          ::Order want = m ? ::Order::EQ : o < 2 ? ::Order::GT : ::Order::LT;
          nv::check(r == want, "compare", "three-way comparison is wrong");
          nv::check(toBool(r) == m, "tobool", "toBool is wrong");
        }
      }
  nv::group = "widen";
  const int N = nv::thorough ? 200000 : 20000;
  for (int n = 0; n < N && !nv::timeUp(); n++) {
    std::vector<Constraint> g, want;
    std::string t;
    for (int k = nv::rnd(0, 8); k > 0; k--) {
      int x = nv::rnd(0, 3), o = nv::rnd(0, 3), c = nv::rnd(0, 4);
      g.push_back(build(x, o, c));
      if (o < 2)
        want.push_back(g.back());
      t += "x" + std::to_string(x) + names[o] + std::to_string(c) + " ";
    }
    nv::begin(t, g.size() > 1);
    widen(g);
    bool same = g.size() == want.size();
    for (size_t i = 0; same && i < g.size(); i++)
      same = g[i].x == want[i].x && g[i].odr == want[i].odr && g[i].c == want[i].c;
    if (!same) { // the order of constraints in a guard is irrelevant
      auto key = [](const Constraint &c) { return std::make_tuple(int(c.x), code(c.odr), c.c); };
      std::multiset<std::tuple<int, int, int>> a, b;
      std::set<std::tuple<int, int, int>> sa, sb;
      for (auto &c : g)
        sa.insert(key(c));
      for (auto &c : want)
        sb.insert(key(c));
      same = sa == sb;
    }
    nv::check(same, "widen", "not exactly the upper bounds remain");
  }
  return nv::done();
}
