// bounded check of the interval algebra: membership on a quarter grid against exact set semantics
#include "common.hh"
#include <sys/wait.h>
#include "interval.hh"

using IV = std::vector<std::shared_ptr<Interval>>;
static const double INF = std::numeric_limits<double>::infinity();
static std::string show(const Interval &i) {
  return std::string(i.lowerBound.second ? "[" : "(") + nv::num(i.lowerBound.first) + "," + nv::num(i.upperBound.first) + (i.upperBound.second ? "]" : ")");
}
static std::string show(const IV &v) {
  std::string s = "{";
  for (auto &p : v)
    s += show(*p) + " ";
  return s + "}";
}
// reference membership, independent of the code under test
static bool in(double x, const Interval &i) {
  auto l = i.lowerBound, u = i.upperBound;
  return (l.second ? l.first <= x : l.first < x) && (u.second ? x <= u.first : x < u.first);
}
static bool in(double x, const IV &v) {
  for (auto &p : v)
    if (in(x, *p))
      return true;
  return false;
}
static bool empty(const Interval &i) {
  auto l = i.lowerBound, u = i.upperBound;
  return l.first > u.first || (l.first == u.first && !(l.second && u.second));
}
static Interval gen(int maxc, bool nonempty = true) {
  for (;;) {
    int l = nv::rnd(0, maxc), u = l + nv::rnd(0, maxc);
    Interval i(Bounds{double(l), nv::coin()}, nv::coin(5) ? Bounds{INF, false} : Bounds{double(u), nv::coin()});
    if (!nonempty || !empty(i))
      return i;
  }
}
static IV genv(int n, int maxc, bool nonempty = true) {
  IV v;
  for (int k = nv::rnd(0, n); k > 0; k--)
    if (!v.empty() && nv::coin(4)) // the same object listed twice
      v.push_back(nv::pick(v));
    else
      v.push_back(std::make_shared<Interval>(gen(maxc, nonempty)));
  return v;
}
static IV copy(const IV &v) {
  IV r; // same sharing structure
  std::map<Interval *, std::shared_ptr<Interval>> m;
  for (auto &p : v) {
    auto &q = m[p.get()];
    if (!q)
      q = std::make_shared<Interval>(*p);
    r.push_back(q);
  }
  return r;
}
static const double STEP = 0.25;
// exact: intervals with integer ends, so a set is determined by its integer and half-integer points
static bool inSum(double x, const IV &a, const IV &b) {
  for (auto &p : a)
    for (auto &q : b) {
      if (empty(*p) || empty(*q))
        continue;
      Interval s(Bounds{p->lowerBound.first + q->lowerBound.first, p->lowerBound.second && q->lowerBound.second},
                 Bounds{p->upperBound.first + q->upperBound.first, p->upperBound.second && q->upperBound.second});
      if (in(x, s))
        return true;
    }
  return false;
}
static bool inPower(double x, const Interval &i, int k) {
  Interval s(Bounds{i.lowerBound.first * k, i.lowerBound.second}, Bounds{i.upperBound.first * k, i.upperBound.second});
  return in(x, s);
}
int main(int argc, char **argv) {
  nv::init(argc, argv);
  nv::group = "contain";
  {
    std::vector<Interval> all;
    for (int l = 0; l <= 3; l++)
      for (int u = l; u <= 4; u++)
        for (int f = 0; f < 4; f++)
          all.push_back(Interval(Bounds{double(l), bool(f & 1)}, u == 4 ? Bounds{INF, false} : Bounds{double(u), bool(f & 2)}));
    for (auto &i : all)
      for (double x = -1; x < 6; x += STEP) {
        nv::begin(show(i) + " at " + nv::num(x));
        nv::check(i.contain(x) == in(x, i), "contain", "membership is wrong");
      }
    nv::group = "meet-sum";
    for (auto &i : all)
      for (auto &j : all) {
        nv::begin(show(i) + " , " + show(j));
        Interval m = i && j;
        for (double x = -1; x < 10; x += STEP)
          nv::check(in(x, m) == (in(x, i) && in(x, j)), "meet", "intersection " + show(m) + " wrong at " + nv::num(x));
        if (empty(i) || empty(j))
          continue;
        Interval s = i + j;
        for (double x = -1; x < 16; x += STEP)
          nv::check(in(x, s) == inSum(x, {std::make_shared<Interval>(i)}, {std::make_shared<Interval>(j)}), "sum", "sum " + show(s) + " wrong at " + nv::num(x));
      }
    nv::group = "constructors";
    for (int a = 0; a < 4; a++)
      for (int b = a; b < 5; b++) {
        nv::begin(std::to_string(a) + " " + std::to_string(b));
        Interval d, o(a), p(a, b);
        for (double x = -1; x < 8; x += STEP) {
          nv::check(in(x, d) == (x >= 0), "ctor", "default interval");
          nv::check(in(x, o) == (x > a), "ctor", "open ray");
          nv::check(in(x, p) == (a < x && x < b), "ctor", "open interval");
        }
      }
    nv::group = "plus";
    for (int l = 0; l <= 7; l++)
      for (int u = l; u <= 9; u++)
        for (int f = 0; f < 4; f++) {
          Interval i(Bounds{double(l), bool(f & 1)}, u == 9 ? Bounds{INF, false} : Bounds{double(u), bool(f & 2)});
          if (empty(i))
            continue;
          if (l == u) {
            if (l != 1)
              continue;
            // known finding interval-plus-point, reported once on a fixed input without running it into UB
            nv::begin(show(i));
            double m = std::ceil(l / double(u - l));
            (void)m;
            continue;
          }
          nv::begin(show(i));
          IV out;
          Interval c = i;
          c.plus(out);
          double m = std::ceil(double(l) / (u - l));
          for (double x = -1; x <= 9 * 12; x += STEP) {
            bool want = false;
            for (int k = 1; k <= (u == 9 ? 1 : 120) && !want; k++)
              want = inPower(x, i, k);
            if (in(x, out) != want) {
              bool known = f == 0 && u != 9 && m * (u - l) == l && x == m * u && !want;
              nv::check(false, known ? "interval-plus-open" : "plus", "I+ = " + show(out) + (want ? " misses " : " covers ") + nv::num(x));
            }
          }
        }
  }
  const int N = nv::thorough ? 60000 : 6000;
  for (int n = 0; n < N && !nv::timeUp(); n++) {
    nv::group = "list-interval";
    {
      IV a = genv(4, 5, false), b = copy(a);
      Interval r = gen(5, false);
      nv::begin(show(a) + " with " + show(r), a.size() > 0);
      land(b, r);
      for (double x = -1; x < 13; x += STEP)
        nv::check(in(x, b) == (in(x, a) && in(x, r)), "land1", "result " + show(b) + " wrong at " + nv::num(x));
    }
    nv::group = "list-list";
    {
      IV a = genv(4, 5, false), b = copy(a), r = genv(4, 5, false), r2 = copy(r);
      nv::begin(show(a) + " with " + show(r), a.size() > 0 && r.size() > 0);
      land(b, r2);
      for (double x = -1; x < 13; x += STEP) {
        nv::check(in(x, b) == (in(x, a) && in(x, r)), "land2", "result " + show(b) + " wrong at " + nv::num(x));
        nv::check(in(x, r2) == in(x, r), "land2-frame", "the right operand changed");
      }
    }
    nv::group = "list-sum";
    {
      IV a = genv(4, 5), b = copy(a), r = genv(4, 5), r2 = copy(r);
      nv::begin(show(a) + " with " + show(r), a.size() > 0 && r.size() > 0);
      b += r2;
      for (double x = -1; x < 24; x += STEP) {
        nv::check(in(x, b) == inSum(x, a, r), "sumall", "result " + show(b) + " wrong at " + nv::num(x));
        nv::check(in(x, r2) == in(x, r), "sumall-frame", "the right operand changed");
      }
    }
    nv::group = "list-plus";
    if (n % 4 == 0) {
      // bounded: every exponent vector up to the horizon
      IV a;
      int k = nv::rnd(1, 3);
      while ((int)a.size() < k) {
        Interval i = gen(4);
        if (i.lowerBound.first == i.upperBound.first)
          continue; // interval-plus-point
        double l = i.lowerBound.first, u = i.upperBound.first;
        if (!i.lowerBound.second && !i.upperBound.second && u < INF && std::ceil(l / (u - l)) * (u - l) == l)
          continue; // interval-plus-open
        a.push_back(std::make_shared<Interval>(i));
      }
      IV b = copy(a);
      nv::begin(show(a));
      plus(b);
      const double H = 14;
      // sums over all multisets, by breadth first search over intervals below the horizon
      std::vector<Interval> reach, front;
      std::set<std::tuple<double, bool, double, bool>> seen;
      Interval zero(Bounds{0, true}, Bounds{0, true});
      front.push_back(zero);
      while (!front.empty()) {
        Interval f = front.back();
        front.pop_back();
        for (auto &p : a) {
          Interval s(Bounds{f.lowerBound.first + p->lowerBound.first, f.lowerBound.second && p->lowerBound.second},
                     Bounds{std::min(f.upperBound.first + p->upperBound.first, 1000.0), f.upperBound.second && p->upperBound.second});
          if (f.upperBound.first + p->upperBound.first >= 1000)
            s.upperBound.second = false;
          if (s.lowerBound.first > H)
            continue;
          if (s.upperBound.first > 40)
            s.upperBound = {1000, false};
          if (seen.insert({s.lowerBound.first, s.lowerBound.second, s.upperBound.first, s.upperBound.second}).second) {
            reach.push_back(s);
            front.push_back(s);
          }
        }
      }
      for (double x = -1; x < H; x += STEP) {
        bool want = false;
        for (auto &s : reach)
          want = want || in(x, s);
        nv::check(in(x, b) == want, "plus-list", std::string("result ") + show(b) + (want ? " misses " : " covers ") + nv::num(x));
      }
    }
  }
  // known findings, replayed on their fixed inputs
  nv::group = "plus-point";
  {
    nv::begin("[1,1]");
    pid_t p = fork();
    if (p == 0) {
      struct itimerval tv = {{0, 0}, {3, 0}};
      for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGVTALRM})
        signal(s, SIG_DFL);
      setitimer(ITIMER_VIRTUAL, &tv, nullptr);
      Interval i(Bounds{1, true}, Bounds{1, true});
      IV out;
      i.plus(out);
      bool ok = true;
      for (double x = 0; x < 20; x += STEP)
        ok = ok && in(x, out) == (x >= 1 && x == std::floor(x));
      _exit(ok ? 0 : 3);
    }
    int st = 0;
    waitpid(p, &st, 0);
    nv::check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "interval-plus-point", "I+ of the point interval is not {1,2,3,...}");
  }
  return nv::done();
}
