// bounded check of the zone operations against an independent integer-coded DBM reference
#include "common.hh"
#include "zone.hh"

static const double INF = std::numeric_limits<double>::infinity();
static const long NOB = 1000000; // no bound
using Ref = std::vector<std::vector<long>>; // 2c+1 for <= c, 2c for < c
static long code(const Bounds &b) {
  if (b.first == INF)
    return NOB;
  if (b.first == -INF)
    return -NOB;
  return 2 * long(b.first) + (b.second ? 1 : 0);
}
static long add(long a, long b) {
  if (a >= NOB || b >= NOB)
    return NOB;
  if (a <= -NOB || b <= -NOB)
    return -NOB;
  return ((a >> 1) + (b >> 1)) * 2 + ((a & 1) && (b & 1) ? 1 : 0);
}
static Ref ref(const Zone &z) {
  Ref r(z.value.rows(), std::vector<long>(z.value.cols()));
  for (int i = 0; i < z.value.rows(); i++)
    for (int j = 0; j < z.value.cols(); j++)
      r[i][j] = code(z.value(i, j));
  return r;
}
static bool canon(Ref &r) { // false if empty
  int n = r.size();
  for (int i = 0; i < n; i++) {
    if (r[i][i] < 1)
      return false;
    r[i][i] = 1;
  }
  for (int k = 0; k < n; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        r[i][j] = std::min(r[i][j], add(r[i][k], r[k][j]));
  for (int i = 0; i < n; i++)
    if (r[i][i] < 1)
      return false;
  return true;
}
//! do two matrices denote the same set of valuations?
static bool sameSet(Ref a, Ref b) {
  if (a.size() != b.size())
    return false;
  bool x = canon(a), y = canon(b);
  return x == y && (!x || a == b);
}
static bool subset(Ref a, Ref b) {
  if (!canon(a))
    return true;
  if (!canon(b))
    return false;
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < a.size(); j++)
      if (a[i][j] > b[i][j])
        return false;
  return true;
}
static std::string show(const Zone &z) {
  std::string s = "[";
  for (int i = 0; i < z.value.rows(); i++) {
    for (int j = 0; j < z.value.cols(); j++)
      s += (z.value(i, j).second ? "<=" : "<") + nv::num(z.value(i, j).first) + " ";
    s += "; ";
  }
  return s + "]";
}
static Zone make(int rows) {
  Zone z;
  z.value.resize(rows, rows);
  int dens = nv::rnd(1, 4);
  int mx = nv::rnd(1, 4);
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < rows; j++)
      z.value(i, j) = i == j ? Bounds{0, true} : nv::rnd(0, 4) < dens ? Bounds{double(nv::rnd(-mx, mx + 2)), nv::coin()} : Bounds{INF, false};
  if (nv::coin(6))
    z.value(0, 0) = Bounds{INF, false};
  if (nv::coin(20)) {
    int i = nv::rnd(0, rows - 1);
    z.value(i, i) = Bounds{double(nv::rnd(-1, 1)), nv::coin()};
  }
  z.M = Bounds{double(nv::rnd(0, 5)), nv::coin()};
  return z;
}
static Bounds randB() { return nv::coin(8) ? Bounds{INF, false} : Bounds{double(nv::rnd(-4, 6)), nv::coin()}; }
static bool eqB(const Bounds &a, const Bounds &b) { return a.first == b.first && a.second == b.second; }

int main(int argc, char **argv) {
  nv::init(argc, argv);
  const int N = nv::thorough ? 2000000 : 120000;
  for (int n = 0; n < N && !nv::timeUp(); n++) {
    const int rows = nv::rnd(2, nv::coin(3) ? 6 : 4);
    const Zone z = make(rows);
    const Ref before = ref(z);
    Ref cl = before;
    const bool nonempty = canon(cl);
    nv::group = "zone";
    {
      Zone w = z;
      int x = nv::rnd(-1, rows - 2), y = nv::rnd(-1, rows - 2);
      Bounds b = randB();
      nv::begin("tighten x" + std::to_string(x) + "-x" + std::to_string(y) + " by " + nv::num(b.first) + (b.second ? "<= " : "< ") + show(z), nonempty);
      w.tighten(ClockVariables(x), ClockVariables(y), b);
      Ref want = before;
      want[x + 1][y + 1] = std::min(want[x + 1][y + 1], code(b));
      nv::check(sameSet(ref(w), want), "tighten", "not the zone intersected with the constraint: " + show(w));
    }
    {
      Zone w = z;
      int x = nv::rnd(0, rows - 1);
      nv::begin("close1 " + std::to_string(x) + " " + show(z), nonempty);
      w.close1(x);
      nv::check(sameSet(ref(w), before), "close1", "the set changed: " + show(w));
    }
    {
      Zone w = z;
      nv::begin("canonize " + show(z), nonempty);
      w.canonize();
      nv::check(sameSet(ref(w), before), "canonize", "the set changed: " + show(w));
      if (nonempty) {
        Ref got = ref(w);
        for (int i = 0; i < rows; i++)
          got[i][i] = 1;
        nv::check(got == cl, "canonize", "a bound is not the tightest one: " + show(w));
      }
    }
    {
      Zone w = z;
      nv::begin("isSatisfiable " + show(z));
      bool s = w.isSatisfiable();
      nv::check(s == nonempty, "isSatisfiable", s ? "empty zone reported satisfiable" : "non-empty zone reported unsatisfiable");
      nv::check(sameSet(ref(w), before), "isSatisfiable", "the set changed: " + show(w));
    }
    {
      Zone w = z;
      nv::begin("makeUnsat " + show(z), nonempty);
      w.makeUnsat();
      nv::check(!w.isSatisfiable(), "makeUnsat", "still satisfiable");
    }
    {
      Zone w = z;
      nv::begin("abstractize M=" + nv::num(z.M.first) + (z.M.second ? "<= " : "< ") + show(z), nonempty);
      w.abstractize();
      nv::check(subset(before, ref(w)), "abstractize", "a valuation is lost: " + show(w));
      bool ok = true;
      for (int i = 0; i < rows; i++)
        for (int j = 0; j < rows; j++) {
          if (z.value(i, j) >= z.M)
            ok = ok && w.value(i, j).first == INF;
          else if (z.value(i, j) >= Bounds(-z.M.first, false))
            ok = ok && eqB(w.value(i, j), z.value(i, j));
        }
      nv::check(ok, "abstractize", "bounds from M on must be dropped and bounds between -M and M kept: " + show(w));
    }
    {
      int a = nv::rnd(0, rows - 2), b = nv::rnd(a, rows - 2);
      Zone w = z;
      nv::begin("cutVars " + std::to_string(a) + ".." + std::to_string(b) + " " + show(z), nonempty);
      std::shared_ptr<Zone> out;
      w.cutVars(out, a, b);
      bool ok = out && out->value.rows() == b - a + 2 && out->value.cols() == b - a + 2;
      for (int i = 0; ok && i < b - a + 2; i++)
        for (int j = 0; ok && j < b - a + 2; j++)
          ok = (i == 0 && j == 0) ? eqB(out->value(0, 0), Bounds{0, true}) : eqB(out->value(i, j), z.value(i ? i + a : 0, j ? j + a : 0));
      nv::check(ok && eqB(out->M, z.M), "cutVars", out ? show(*out) : "nothing");
      nv::check(ref(w) == before, "cutVars", "the zone itself changed");
    }
    {
      Zone w = make(rows);
      if (nv::coin())
        w = z;
      if (nv::coin()) {
        int i = nv::rnd(0, rows - 1), j = nv::rnd(0, rows - 1);
        w.value(i, j) = randB();
      }
      nv::begin("== " + show(z) + show(w), nonempty);
      bool same = true;
      for (int i = 0; i < rows; i++)
        for (int j = 0; j < rows; j++)
          if (i || j)
            same = same && eqB(w.value(i, j), z.value(i, j));
      nv::check((z == w) == same, "equality", "wrong answer");
    }
    if (nonempty) {
      Zone c = z;
      c.value(0, 0) = Bounds{0, true};
      c.canonize();
      const Ref cr = ref(c);
      Ref cc = cr;
      canon(cc);
      if (nv::coin(4))
        c.value(0, 0) = Bounds{INF, false}; // as elapse leaves it
      {
        Zone w = c;
        int x = nv::rnd(0, rows - 2);
        nv::begin("reset x" + std::to_string(x) + " of canonical " + show(c));
        w.reset(x);
        Ref want = cc;
        x++;
        for (int i = 0; i < rows; i++)
          want[x][i] = want[i][x] = NOB;
        want[x][x] = want[x][0] = want[0][x] = 1;
        nv::check(sameSet(ref(w), want), "reset", "not the zone with the clock set to 0: " + show(w));
      }
      {
        Zone w = c;
        nv::begin("elapse of canonical " + show(c));
        w.elapse();
        Ref want = cc;
        for (int i = 1; i < rows; i++) {
          want[i][0] = NOB;
          want[0][i] = want[0][i] >= NOB ? NOB : (want[0][i] & ~1L);
        }
        Ref got = ref(w), loose = want, cw = want;
        for (int i = 1; i < rows; i++)
          loose[0][i] = cc[0][i];
        // letting time pass: strictly positive delays must all be covered, and nothing beyond non-negative delays
        nv::check(subset(cw, got) && subset(got, loose), "elapse", "not the time successors: " + show(w));
        bool up = true;
        for (int i = 1; i < rows; i++)
          up = up && w.value(i, 0).first == INF;
        nv::check(up, "elapse", "an upper bound remains: " + show(w));
      }
    }
    if (n % 50 == 0) {
      int k = nv::rnd(1, 5), k2 = nv::rnd(1, 5);
      nv::begin("zero/universal " + std::to_string(k) + " " + std::to_string(k2));
      Zone a = Zone::zero(k), b = Zone::zero(k2), a2 = Zone::zero(k);
      bool ok = a.value.rows() == k && a.value.cols() == k && b.value.rows() == k2 && b.value.cols() == k2 && a2.value.rows() == k;
      for (auto *q : {&a, &b, &a2})
        for (int i = 0; ok && i < q->value.rows(); i++)
          for (int j = 0; j < q->value.cols(); j++)
            ok = ok && eqB(q->value(i, j), Bounds{0, true});
      nv::check(ok, "zero", "not the zone of the all-zero valuation");
      Zone u = Zone::universal(k), v = Zone::universal(k2), u2 = Zone::universal(k);
      ok = u.value.rows() == k + 1 && u.value.cols() == k + 1 && v.value.rows() == k2 + 1 && u2.value.rows() == k + 1;
      for (auto *q : {&u, &v, &u2})
        for (int i = 0; ok && i < q->value.rows(); i++)
          for (int j = 0; j < q->value.cols(); j++)
            ok = ok && (i == j ? code(q->value(i, j)) >= 1 : q->value(i, j).first == INF);
      nv::check(ok, "universal", "not the zone of all valuations");
    }
  }
  // intersection over the same variables
  for (int n = 0; n < N / 10 && !nv::timeUp(); n++) {
    const int rows = nv::rnd(2, 4);
    Zone a = make(rows), b = make(rows);
    nv::begin("intersectionAssign " + show(a) + show(b));
    Ref want = ref(a), rb = ref(b);
    for (int i = 0; i < rows; i++)
      for (int j = 0; j < rows; j++)
        want[i][j] = std::min(want[i][j], rb[i][j]);
    a.intersectionAssign(b);
    nv::check(sameSet(ref(a), want), "intersectionAssign", "not the common valuations: " + show(a));
  }
  // the guard read off a zone
  for (int n = 0; n < N / 10 && !nv::timeUp(); n++) {
    const int rows = nv::rnd(2, 4);
    Zone z = make(rows);
    z.M.first += 1;
    nv::begin("makeGuard M=" + nv::num(z.M.first) + (z.M.second ? "<= " : "< ") + show(z));
    Ref cl = ref(z);
    if (!canon(cl))
      continue;
    bool nonneg = true;
    for (int i = 1; i < rows; i++)
      nonneg = nonneg && cl[0][i] <= 1; // clock values are never negative
    if (!nonneg)
      continue;
    auto g = z.makeGuard();
    bool inRange = true;
    for (auto &c : g)
      inRange = inRange && c.x < rows - 1;
    nv::check(inRange, "makeGuard", "clock out of range");
    for (int i = 1; inRange && i < rows; i++) {
      // bounds of clock i-1 implied by the guard, in the same coding
      long up = NOB, lo = NOB;
      for (auto &c : g)
        if (c.x == i - 1) {
          if (c.odr == Constraint::Order::lt)
            up = std::min(up, 2L * c.c);
          if (c.odr == Constraint::Order::le)
            up = std::min(up, 2L * c.c + 1);
          if (c.odr == Constraint::Order::gt)
            lo = std::min(lo, -2L * c.c);
          if (c.odr == Constraint::Order::ge)
            lo = std::min(lo, -2L * c.c + 1);
        }
      lo = std::min(lo, 1L);
      const long M = code(z.M);
      nv::check(up == (cl[i][0] < M ? cl[i][0] : NOB), "makeGuard", "upper bound of clock " + std::to_string(i - 1));
      // lower bounds may be weakened to "greater than M"
      nv::check(lo == cl[0][i] || (cl[0][i] < -2 * (M >> 1) && lo == -2 * (M >> 1)), "makeGuard", "lower bound of clock " + std::to_string(i - 1));
    }
  }
  return nv::done();
}
