// bounded check of the match zones (both representations) against an integer-coded DBM reference
#include "common.hh"
#include "intermediate_zone.hh"

static const double INF = std::numeric_limits<double>::infinity();
static const long NOB = 1000000; // no bound
using Ref = std::vector<std::vector<long>>; // 2c+1 for <= c, 2c for < c
static long code(const Bounds &b) {
  if (b.first == INF)
    return NOB;
  if (b.first == -INF)
    return -NOB;
  return 2 * long(b.first) + (b.second ? 1 : 0);
}
static Bounds bound(long c) { return c >= NOB ? Bounds{INF, false} : Bounds{double(c >> 1), bool(c & 1)}; }
static long add(long a, long b) {
  if (a >= NOB || b >= NOB)
    return NOB;
  if (a <= -NOB || b <= -NOB)
    return -NOB;
  return ((a >> 1) + (b >> 1)) * 2 + ((a & 1) && (b & 1) ? 1 : 0);
}
static bool canon(Ref &r) { // false if empty
  int n = r.size();
  for (int k = 0; k < n; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        r[i][j] = std::min(r[i][j], add(r[i][k], r[k][j]));
  for (int i = 0; i < n; i++)
    if (r[i][i] < 1)
      return false;
  return true;
}
static std::string showB(const Bounds &b) { return (b.second ? "<=" : "<") + nv::num(b.first); }
static std::string show(const IntermediateZone &z) {
  std::string s = z.useInterval ? "cells[" : "matrix[";
  if (z.useInterval)
    for (auto &i : z.intervals)
      s += "(" + showB(i.lowerBound) + "," + showB(i.upperBound) + ")";
  else
    for (int i = 0; i < z.value.rows(); i++) {
      for (int j = 0; j < z.value.cols(); j++)
        s += showB(z.value(i, j)) + " ";
      s += "; ";
    }
  return s + "] newest=" + std::to_string(int(z.newestClock));
}

struct World {
  IntermediateZone z;
  Ref r;                 // canonical unless empty
  std::vector<bool> used;
  int newest = 1;
  bool empty = false;
  std::string log;
  World(IntermediateZone zz) : z(std::move(zz)) {}
  int n() { return r.size(); }
  void add1(int x, int y, long c) {
    r[x][y] = std::min(r[x][y], c);
    empty = !canon(r) || empty;
  }
  void forget(int x) {
    for (int i = 0; i < n(); i++)
      r[x][i] = r[i][x] = NOB;
    r[x][x] = 1;
  }
  Ref got() {
    Ref g(n(), std::vector<long>(n(), NOB));
    for (int i = 0; i < n(); i++)
      g[i][i] = 1;
    if (z.useInterval) {
      g[1][0] = code(z.intervals[0].upperBound), g[0][1] = code(z.intervals[0].lowerBound);
      if (z.intervals.size() > 1) {
        g[2][0] = code(z.intervals[1].upperBound), g[0][2] = code(z.intervals[1].lowerBound);
        g[2][1] = code(z.intervals[2].upperBound), g[1][2] = code(z.intervals[2].lowerBound);
      }
    } else
      for (int i = 0; i < n(); i++)
        for (int j = 0; j < n(); j++)
          if (i < z.value.rows() && j < z.value.cols())
            g[i][j] = code(z.value(i, j));
    return g;
  }
  void verify(const char *key) {
    bool s = z.isSatisfiableCanonized();
    nv::check(s == !empty, key, std::string(s ? "empty zone reported non-empty: " : "non-empty zone reported empty: ") + show(z));
    if (empty)
      return;
    nv::check(z.newestClock == newest, key, "wrong newest clock " + show(z));
    size_t dim = z.useInterval ? (z.intervals.size() == 1 ? 2 : 3) : z.value.rows();
    nv::check(int(dim) == n(), key, "wrong dimension " + show(z));
    Ref g = got();
    bool ok = true;
    for (int i = 0; i < n(); i++)
      for (int j = 0; j < n(); j++)
        ok = ok && (i == j || g[i][j] == r[i][j]);
    nv::check(ok, key, "the zone is not the exact set in canonical form: " + show(z));
    if (!z.useInterval || z.intervals.size() == 3) {
      Zone a;
      z.toAns(a);
      ok = a.value.rows() == 3 && a.value.cols() == 3;
      if (ok && newest != 1) {
        int p[3] = {0, 1, newest};
        for (int i = 0; i < 3; i++)
          for (int j = 0; j < 3; j++)
            ok = ok && code(a.value(i, j)) == (i == j ? 1 : r[p[i]][p[j]]);
      }
      nv::check(ok, "toAns", "the answer zone has other bounds than the match zone: " + show(z));
    }
  }
};
static const char *OPS[] = {"<", "<=", ">=", ">"};
static Constraint mk(int x, int o, int c) {
  switch (o) {
  case 0: return ConstraintMaker(x) < c;
  case 1: return ConstraintMaker(x) <= c;
  case 2: return ConstraintMaker(x) >= c;
  default: return ConstraintMaker(x) > c;
  }
}
static void refGuard(World &w, int x, int y, int o, int c) { // x - y o c
  if (o == 0) w.add1(x, y, 2L * c);
  if (o == 1) w.add1(x, y, 2L * c + 1);
  if (o == 2) w.add1(y, x, -2L * c + 1);
  if (o == 3) w.add1(y, x, -2L * c);
}

int main(int argc, char **argv) {
  nv::init(argc, argv);
  const int N = nv::thorough ? 400000 : 25000;
  for (int n = 0; n < N && !nv::timeUp(); n++) {
    nv::group = "match zone";
    int time = nv::rnd(0, 4);
    int l = time, u = time + nv::rnd(0, 3);
    bool inf = nv::coin(12);
    bool ls = nv::coin(), us = nv::coin();
    std::unique_ptr<World> w;
    const bool matrix = nv::coin(3);
    std::string log = std::string(matrix ? "matrix" : "interval") + (ls ? " [" : " (") + std::to_string(l) + "," + (inf ? "inf" : std::to_string(u)) + (us ? "]" : ")");
    nv::begin(log);
    if (!matrix) {
      Interval it{};
      it.lowerBound = Bounds{double(l), ls};
      it.upperBound = inf ? Bounds{INF, false} : Bounds{double(u), us};
      w = std::make_unique<World>(IntermediateZone(it));
    } else {
      IntermediateZone iz = Zone::zero(2);
      iz.value(0, 1) = Bounds{-double(l), ls};
      iz.value(1, 0) = inf ? Bounds{INF, false} : Bounds{double(u), us};
      w = std::make_unique<World>(iz);
    }
    w->r = {{1, -2L * l + ls}, {inf ? NOB : 2L * u + us, 1}};
    w->used = {true, true};
    w->empty = !canon(w->r);
    w->verify("construct");
    int steps = nv::rnd(1, 9);
    for (int s = 0; s < steps && !nv::timeUp(); s++) {
      int op = nv::rnd(0, 9);
      if (op <= 2 || s == 0) { // alloc at a later time interval
        long up = w->r[w->newest][0] >= NOB ? NOB : std::max(w->r[w->newest][0], 2L * (time + nv::rnd(0, 4)) + nv::coin());
        int lowc = nv::coin(3) ? time : std::max(0, time - nv::rnd(0, 2));
        if (nv::coin(8)) up = NOB;
        bool lstrict = nv::coin();
        // the bounds of the new clock belong to a time interval that is not before that of the newest clock
        if (w->z.useInterval && w->n() == 2 && !w->empty)
          if (lowc = std::max(lowc, int(-(w->r[0][1] >> 1))); lowc == -(w->r[0][1] >> 1) && !(w->r[0][1] & 1)) lstrict = true;
        Bounds ub = bound(up), lb = Bounds{-double(lowc), !lstrict};
        if (up < NOB && (up >> 1) < lowc + lstrict) up = 2L * (lowc + lstrict) + 1, ub = bound(up);
        if (up < NOB) time = std::max(time, int(up >> 1)); // usually later
        log += "; alloc(" + showB(ub) + "," + showB(lb) + ")";
        nv::begin(log);
        // reference
        int k;
        if (!matrix && w->n() == 2) k = 2;
        else if (!matrix && w->n() == 3 && w->z.useInterval) k = 3;
        else k = std::find(w->used.begin(), w->used.end(), false) - w->used.begin();
        if (k == w->n()) {
          for (auto &row : w->r) row.push_back(NOB);
          w->r.push_back(std::vector<long>(k + 1, NOB));
          w->r[k][k] = 1;
          w->used.push_back(true);
        }
        if (k == 3 && w->z.useInterval && w->n() != 4) continue;
        w->used[k] = true;
        w->forget(k);
        w->r[k][0] = up, w->r[0][k] = -2L * lowc + !lstrict, w->r[w->newest][k] = 1;
        w->empty = !canon(w->r) || w->empty;
        w->newest = k;
        auto got = w->z.alloc(ub, lb);
        nv::check(got == k, "alloc", "returned clock " + std::to_string(int(got)) + " instead of the first free one " + std::to_string(k));
        if (got != k) break;
        w->verify("alloc");
      } else if (op <= 4) {
        std::vector<int> us_;
        for (int i = 0; i < w->n(); i++) if (w->used[i]) us_.push_back(i);
        int x = nv::pick(us_), y = nv::pick(us_);
        if (x == y) continue;
        Bounds b = nv::coin(8) ? Bounds{INF, false} : Bounds{double(nv::rnd(-time - 1, time + 1)), nv::coin()};
        log += "; tighten " + std::to_string(x) + "-" + std::to_string(y) + " " + showB(b);
        nv::begin(log);
        w->add1(x, y, code(b));
        w->z.tighten(x, y, b);
        w->verify("tighten");
      } else if (op <= 8) {
        // guards over up to three clocks with reset times
        std::vector<boost::variant<double, ClockVariables>> rt;
        std::vector<int> isClock, val;
        std::vector<int> cl;
        for (int i = 1; i < w->n(); i++) if (w->used[i] && i != w->newest) cl.push_back(i);
        const bool at = op >= 7;
        if (at && !w->z.useInterval) cl.push_back(w->newest);
        if (at && w->z.useInterval) cl.push_back(w->newest);
        const int nc = nv::rnd(1, 3);
        std::string rs;
        for (int i = 0; i < nc; i++) {
          bool c = !cl.empty() && nv::coin();
          int v = c ? nv::pick(cl) : nv::rnd(0, time);
          isClock.push_back(c), val.push_back(v);
          if (c) rt.push_back(ClockVariables(v)); else rt.push_back(double(v));
          rs += (c ? "x" : "") + std::to_string(v) + " ";
        }
        std::vector<Constraint> gs;
        std::string g;
        int t = nv::rnd(std::max(0, time - 2), time + 2);
        int ng = nv::rnd(1, 3);
        for (int i = 0; i < ng; i++) {
          int x = nv::rnd(0, nc - 1), o = nv::rnd(0, 3), c = nv::rnd(0, 4);
          gs.push_back(mk(x, o, c));
          g += "x" + std::to_string(x) + OPS[o] + std::to_string(c) + " ";
          if (!at) refGuard(*w, w->newest, isClock[x] ? val[x] : 0, o, isClock[x] ? c : c + val[x]);
          else if (isClock[x]) refGuard(*w, 0, val[x], o, c - t); // t - x o c
          else {
            int d = t - val[x];
            bool ok = o == 0 ? d < c : o == 1 ? d <= c : o == 2 ? d >= c : d > c;
            if (!ok) w->empty = true;
          }
        }
        log += "; guards {" + g + "} reset times {" + rs + "}" + (at ? " at time " + std::to_string(t) : " at the newest clock");
        nv::begin(log);
        if (at) w->z.tighten(gs, rt, double(t)); else w->z.tighten(gs, rt);
        w->verify(at ? "guards-at" : "guards-now");
      } else {
        std::vector<boost::variant<double, ClockVariables>> rt;
        std::vector<bool> keep(w->n(), false);
        keep[0] = keep[1] = keep[w->newest] = true;
        std::string rs;
        for (int i = 0, k = nv::rnd(0, 3); i < k; i++) {
          int c = nv::rnd(0, w->n() - 1);
          if (nv::coin() || c == 0 || !w->used[c]) rt.push_back(double(i)), rs += "t ";
          else rt.push_back(ClockVariables(c)), keep[c] = true, rs += "x" + std::to_string(c) + " ";
        }
        log += "; update {" + rs + "}";
        nv::begin(log);
        w->z.update(rt);
        if (!w->z.useInterval)
          for (int i = 0; i < w->n(); i++)
            if (!keep[i]) { if (!w->empty) w->forget(i); w->used[i] = false; }
        if (w->empty) break; // an empty zone is discarded before
        w->verify("update");
      }
      if (w->empty) break; // the matcher discards empty zones
    }
  }
  return nv::done();
}
